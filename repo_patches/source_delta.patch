From 39316329725ddabcf4e91b6b30ecb57134fa2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 01/56] fix: don't lose the end tag of an element whose content
 grows the node stack

---
 node.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index f26ee9e..30c15ee 100644
--- a/node.go
+++ b/node.go
@@ -115,6 +115,7 @@ func (n *node) open(w *Writer) error {
 func (n *node) opened(w *Writer) error {
 	var err error
 
+	cur := w.current
 	st := n.state
 	n.state = StateOpened
 
@@ -142,6 +143,10 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
+
+	// writing the node's content may have grown w.nodes, in which case n now
+	// refers to the old backing array.
+	n = &w.nodes[cur]
 	if w.Indenter != nil {
 		w.last = Event{n.state, n.kind, n.children}
 	}
@@ -151,11 +156,15 @@ func (n *node) opened(w *Writer) error {
 func (n *node) end(w *Writer) error {
 	var err error
 
+	cur := w.current
 	st := n.state
 	if st == StateOpen {
-		if err := w.nodes[w.current].opened(w); err != nil {
+		if err := w.nodes[cur].opened(w); err != nil {
 			return err
 		}
+		// opened() may have grown w.nodes, in which case n now refers to the
+		// old backing array.
+		n = &w.nodes[cur]
 	}
 
 	n.state = StateEnded
-- 
2.43.0


From 90936e2a0e8d5a621b3d5a4544fe06aec4c576ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 02/56] fix: report errors raised while opening the parent of a
 written node

---
 writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index ee9c6dd..ee6037e 100644
--- a/writer.go
+++ b/writer.go
@@ -484,7 +484,9 @@ func (w *Writer) checkParent(nodeFlags nodeFlag) error {
 }
 
 func (w *Writer) writeBeginNext(kind NodeKind) error {
-	w.Next()
+	if err := w.Next(); err != nil {
+		return err
+	}
 	return w.writeBeginCur(kind)
 }
 
-- 
2.43.0


From 3c97f3c98a832a406c8db7825a4631d19951fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 03/56] fix: reject attributes written after the content of an
 element

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index f81acbf..b8d72fb 100644
--- a/attr.go
+++ b/attr.go
@@ -64,6 +64,9 @@ func (a Attr) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
 			return err
 		}
+		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
+			return fmt.Errorf("xmlwriter: attr %q must be written before the content of the element", a.Name)
+		}
 	}
 
 	if w.Indenter != nil {
-- 
2.43.0


From 5191b3b801ba7ab5f13ceff3aa6fb21012e8d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 04/56] fix: reject '--' and ']]>' split over several content
 writes, and comments ending in '-'

---
 node.go  |  4 ++++
 nodes.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/node.go b/node.go
index 30c15ee..d797377 100644
--- a/node.go
+++ b/node.go
@@ -64,6 +64,10 @@ type node struct {
 	// of an element if the element only contains cdata or comments
 	hasIndenter bool
 
+	// number of '-' (comment) or ']' (cdata) the content written so far ends
+	// with, as the content can be written in several pieces.
+	tail int
+
 	// bogus tagged union, this keeps things from escaping to the heap
 	kind       NodeKind
 	flag       nodeFlag
diff --git a/nodes.go b/nodes.go
index 2dd7fd0..2313b79 100644
--- a/nodes.go
+++ b/nodes.go
@@ -17,6 +17,9 @@ func (t Raw) write(w *Writer) error {
 	if err := w.writeBeginCur(RawNode); err != nil {
 		return err
 	}
+	if w.current >= 0 && t != "" {
+		w.nodes[w.current].tail = 0
+	}
 	w.printer.WriteString(string(t))
 	if w.Indenter != nil {
 		w.last = Event{StateEnded, RawNode, 0}
@@ -51,6 +54,14 @@ func (t Text) write(w *Writer) error {
 	return err
 }
 
+// trailing returns how many times c is repeated at the end of s, up to max.
+func trailing(s string, c byte, max int) (n int) {
+	for n < max && n < len(s) && s[len(s)-1-n] == c {
+		n++
+	}
+	return n
+}
+
 // CommentContent represents a text portion of an XML comment which can
 // be written after a Comment is Started.
 type CommentContent string
@@ -78,6 +89,13 @@ func (c CommentContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CommentContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 && s != "" {
+		n := &w.nodes[w.current]
+		if w.Enforce && n.tail > 0 && s[0] == '-' {
+			return fmt.Errorf("xmlwriter: comment may not contain '--'")
+		}
+		n.tail = trailing(s, '-', 1)
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
@@ -133,6 +151,9 @@ func (c Comment) opened(n *node, w *Writer, prev NodeState) error {
 }
 
 func (c Comment) end(n *node, w *Writer, prev NodeState) error {
+	if w.Enforce && n.tail > 0 {
+		return fmt.Errorf("xmlwriter: comment may not end with '-'")
+	}
 	w.printer.WriteString("-->")
 	return w.printer.cachedWriteError()
 }
@@ -161,6 +182,17 @@ func (c CDataContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CDataContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 && s != "" {
+		n := &w.nodes[w.current]
+		if w.Enforce && ((n.tail > 0 && strings.HasPrefix(s, "]>")) || (n.tail > 1 && s[0] == '>')) {
+			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
+		}
+		tail := trailing(s, ']', 2)
+		if tail == len(s) && n.tail > 0 {
+			tail = 2
+		}
+		n.tail = tail
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
-- 
2.43.0


From 6c216c95c76f964bff4b37be861caa3dcd3aeb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 05/56] fix: exclude the discouraged characters when checking
 characters strictly

---
 check.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/check.go b/check.go
index 8163d50..3b9820d 100644
--- a/check.go
+++ b/check.go
@@ -56,12 +56,6 @@ func CheckName(name string) error {
 // that unicode characters referenced in the note are also excluded.
 func CheckChars(chars string, strict bool) error {
 	for i, rn := range chars {
-		if rn == 0x9 || rn == 0xA || rn == 0xD ||
-			(rn >= 0x20 && rn <= 0xD7FF) ||
-			(rn >= 0xE000 && rn <= 0xFFFD) ||
-			(rn >= 0x10000 && rn <= 0x10FFFF) {
-			continue
-		}
 		if strict {
 			// Document authors are encouraged to avoid "compatibility
 			// characters", as defined in section 2.3 of [Unicode]. The
@@ -76,9 +70,15 @@ func CheckChars(chars string, strict bool) error {
 				(rn >= 0xAFFFE && rn <= 0xAFFFF) || (rn >= 0xBFFFE && rn <= 0xBFFFF) || (rn >= 0xCFFFE && rn <= 0xCFFFF) ||
 				(rn >= 0xDFFFE && rn <= 0xDFFFF) || (rn >= 0xEFFFE && rn <= 0xEFFFF) || (rn >= 0xFFFFE && rn <= 0xFFFFF) ||
 				(rn >= 0x10FFFE && rn <= 0x10FFFF) {
-				continue
+				return fmt.Errorf("xmlwriter: discouraged chars at position %d: %U", i, rn)
 			}
 		}
+		if rn == 0x9 || rn == 0xA || rn == 0xD ||
+			(rn >= 0x20 && rn <= 0xD7FF) ||
+			(rn >= 0xE000 && rn <= 0xFFFD) ||
+			(rn >= 0x10000 && rn <= 0x10FFFF) {
+			continue
+		}
 		return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
 	}
 	return nil
-- 
2.43.0


From 7c992c745402bf1242953e342ca235be00d348f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 06/56] fix: reject invalid UTF-8 when checking characters

---
 check.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/check.go b/check.go
index 3b9820d..89f4a92 100644
--- a/check.go
+++ b/check.go
@@ -2,6 +2,8 @@ package xmlwriter
 
 import (
 	"fmt"
+	"strings"
+	"unicode/utf8"
 )
 
 // CheckEncoding validates the characters in a Doc{} node's encoding="..."
@@ -77,7 +79,10 @@ func CheckChars(chars string, strict bool) error {
 			(rn >= 0x20 && rn <= 0xD7FF) ||
 			(rn >= 0xE000 && rn <= 0xFFFD) ||
 			(rn >= 0x10000 && rn <= 0x10FFFF) {
-			continue
+			// bytes that are not valid UTF-8 also show up as U+FFFD
+			if rn != utf8.RuneError || strings.HasPrefix(chars[i:], "\uFFFD") {
+				continue
+			}
 		}
 		return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
 	}
-- 
2.43.0


From 47428bbcff180783150c5a2ea9962f57028539b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 07/56] fix: check the characters of PI content

---
 nodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes.go b/nodes.go
index 2313b79..f61d234 100644
--- a/nodes.go
+++ b/nodes.go
@@ -403,6 +403,9 @@ func (p PI) write(w *Writer) error {
 		if strings.Index(p.Content, "?>") >= 0 {
 			return fmt.Errorf("xmlwriter: PI content may not contain '?>'")
 		}
+		if err := CheckChars(p.Content, w.StrictChars); err != nil {
+			return err
+		}
 	}
 
 	if err := w.writeBeginNext(PINode); err != nil {
-- 
2.43.0


From bb8225c24f96547d96b1b9cde528b23b53786dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 08/56] fix: check the characters of system IDs and entity
 values

---
 printer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/printer.go b/printer.go
index cca62d5..6e00af8 100644
--- a/printer.go
+++ b/printer.go
@@ -191,6 +191,9 @@ func (p printer) writeSystemID(systemID string, enforce bool) error {
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: DTD system ID must only contain double or single quotes, not both")
 		}
+		if err := CheckChars(systemID, false); err != nil {
+			return err
+		}
 	}
 	var qc byte = '"'
 	if dq >= 0 {
@@ -217,6 +220,9 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: entity value must only contain double or single quotes, not both")
 		}
+		if err := CheckChars(value, false); err != nil {
+			return err
+		}
 	}
 
 	p.WriteByte(qc)
-- 
2.43.0


From abd542f6813f336a7b340dc92f52892df9637b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:46 +0000
Subject: [PATCH 09/56] fix: check the public ID of notations without a system
 ID

---
 printer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printer.go b/printer.go
index 6e00af8..f376821 100644
--- a/printer.go
+++ b/printer.go
@@ -233,8 +233,8 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 
 func (p printer) writePublicID(publicID string, systemID string, enforce bool) error {
 	if enforce {
-		if len(publicID) < 0 {
-			return fmt.Errorf("xmlwriter: public ID must not be empty")
+		if err := CheckPubID(publicID); err != nil {
+			return err
 		}
 	}
 	p.WriteString("PUBLIC ")
-- 
2.43.0


From d97ce7ce9c51c59eaa3478a4a02660892d7a022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 10/56] fix: escape carriage returns in text

---
 printer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/printer.go b/printer.go
index f376821..e9fdba1 100644
--- a/printer.go
+++ b/printer.go
@@ -143,6 +143,9 @@ func (p printer) EscapeString(s string) error {
 			esc = escLt
 		case '>':
 			esc = escGt
+		case '\r':
+			// a literal CR is turned into LF by XML parsers
+			esc = escCr
 		default:
 			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
 				esc = escFffd
-- 
2.43.0


From 9ad03566929e6330143672e4e01771247cb990d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 11/56] fix: reject attributes without a name and prefixed
 elements without a name

---
 attr.go | 3 +++
 elem.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/attr.go b/attr.go
index b8d72fb..4cb8471 100644
--- a/attr.go
+++ b/attr.go
@@ -67,6 +67,9 @@ func (a Attr) write(w *Writer) error {
 		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
 			return fmt.Errorf("xmlwriter: attr %q must be written before the content of the element", a.Name)
 		}
+		if a.Name == "" {
+			return fmt.Errorf("xmlwriter: attr name must not be empty")
+		}
 	}
 
 	if w.Indenter != nil {
diff --git a/elem.go b/elem.go
index eba5eb7..0c41550 100644
--- a/elem.go
+++ b/elem.go
@@ -63,7 +63,7 @@ func (e Elem) fullName() string {
 func (e Elem) open(n *node, w *Writer) error {
 	name := e.fullName()
 	if w.Enforce {
-		if name == "" {
+		if e.Name == "" {
 			return fmt.Errorf("xmlwriter: element name must not be empty")
 		}
 		if err := CheckName(name); err != nil {
-- 
2.43.0


From 42496e8f876e3b351d1e48ee561c9ae91ba93310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 12/56] fix: don't declare the namespace of a rejected
 attribute

---
 attr.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/attr.go b/attr.go
index 4cb8471..fabacea 100644
--- a/attr.go
+++ b/attr.go
@@ -60,6 +60,10 @@ func (a Attr) Float32(v float32) Attr {
 func (a Attr) Float64(v float64) Attr { a.Value = strconv.FormatFloat(v, 'g', -1, 64); return a }
 
 func (a Attr) write(w *Writer) error {
+	name := a.Name
+	if a.Prefix != "" {
+		name = a.Prefix + ":" + name
+	}
 	if w.Enforce {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
 			return err
@@ -70,6 +74,10 @@ func (a Attr) write(w *Writer) error {
 		if a.Name == "" {
 			return fmt.Errorf("xmlwriter: attr name must not be empty")
 		}
+		// printAttr checks this too, but only after the namespace is recorded
+		if err := CheckName(name); err != nil {
+			return err
+		}
 	}
 
 	if w.Indenter != nil {
@@ -78,11 +86,6 @@ func (a Attr) write(w *Writer) error {
 		}
 	}
 
-	name := a.Name
-	if a.Prefix != "" {
-		name = a.Prefix + ":" + name
-	}
-
 	if a.URI != "" && w.current >= 0 {
 		ns := ns{prefix: a.Prefix, uri: a.URI}
 		found := false
-- 
2.43.0


From d3bfe68a48b0ab1a5571c8728535aea21ccfea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 13/56] fix: reject attributes which have a namespace but no
 prefix

---
 attr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attr.go b/attr.go
index fabacea..6013b4c 100644
--- a/attr.go
+++ b/attr.go
@@ -74,6 +74,10 @@ func (a Attr) write(w *Writer) error {
 		if a.Name == "" {
 			return fmt.Errorf("xmlwriter: attr name must not be empty")
 		}
+		if a.URI != "" && a.Prefix == "" {
+			// the default namespace does not apply to attributes
+			return fmt.Errorf("xmlwriter: attr %q requires a prefix for its uri", a.Name)
+		}
 		// printAttr checks this too, but only after the namespace is recorded
 		if err := CheckName(name); err != nil {
 			return err
-- 
2.43.0


From 7df8362c40fc77cfcd069c196d02ef1efdad9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 14/56] fix: declare the namespace of an element without a
 prefix

---
 elem.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/elem.go b/elem.go
index 0c41550..e73a774 100644
--- a/elem.go
+++ b/elem.go
@@ -71,18 +71,22 @@ func (e Elem) open(n *node, w *Writer) error {
 		}
 	}
 
-	if e.Prefix != "" && e.URI != "" {
+	if e.URI != "" {
 		n.elem.namespaces = append(e.namespaces, ns{prefix: e.Prefix, uri: e.URI, elem: true})
 	}
 
 	w.printer.WriteByte('<')
 	w.printer.WriteString(name)
 
-	if e.Prefix != "" && e.URI != "" {
+	if e.URI != "" {
 		// we can assume the prefix has been enforced already by open running
 		// CheckName on elem.fullName()
 		n.elem.namespaces[0].written = true
-		if err := w.printer.printAttr("xmlns:"+e.Prefix, e.URI, w.Enforce); err != nil {
+		xmlns := "xmlns"
+		if e.Prefix != "" {
+			xmlns += ":" + e.Prefix
+		}
+		if err := w.printer.printAttr(xmlns, e.URI, w.Enforce); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 589adaa5fd63035d67a8c7806b528f6a2beb2e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:29 +0000
Subject: [PATCH 15/56] fix: don't change how an element is closed when
 EndElemFull fails

---
 writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index ee6037e..413ed05 100644
--- a/writer.go
+++ b/writer.go
@@ -324,10 +324,17 @@ func (w *Writer) EndElem(name ...string) error { return w.End(ElemNode, name...)
 // the current node is not an Elem. It will always be closed using the full
 // element close style even if it contains no children: "<tag></tag>".
 func (w *Writer) EndElemFull(name ...string) error {
-	if w.current >= 0 {
-		w.nodes[w.current].elem.Full = true
+	cur := w.current
+	if cur < 0 {
+		return w.End(ElemNode, name...)
+	}
+	full := w.nodes[cur].elem.Full
+	w.nodes[cur].elem.Full = true
+	err := w.End(ElemNode, name...)
+	if err != nil {
+		w.nodes[cur].elem.Full = full
 	}
-	return w.End(ElemNode, name...)
+	return err
 }
 
 // EndAny ends the current node, regardless of what kind of node it is.
-- 
2.43.0


From 3913a93fb05288fc10c58c85a9d0fb125fce6b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 16/56] fix: don't end the enclosing node in EndToDepth when
 nothing was started

---
 writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/writer.go b/writer.go
index 413ed05..f7de4d0 100644
--- a/writer.go
+++ b/writer.go
@@ -424,6 +424,10 @@ func (w *Writer) EndAll() error {
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
 	limit := depth + 1
+	if w.current < limit {
+		// nothing has been started since depth, don't end what was there before
+		return fmt.Errorf("xmlwriter: could not pop node")
+	}
 	for {
 		if w.current <= limit {
 			break
-- 
2.43.0


From 38be50c145afbc77e5bbaa6dd3c1cd60605dc5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 17/56] fix: don't panic naming a negative NodeKind

---
 nodekind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodekind.go b/nodekind.go
index eda607c..8f26a29 100644
--- a/nodekind.go
+++ b/nodekind.go
@@ -12,7 +12,7 @@ type NodeKind int
 // the Name() will be empty. String() returns a human-readable representation
 // for information purposes; if a stable string is required, use this instead.
 func (n NodeKind) Name() string {
-	if int(n) < nodeKindLength {
+	if n >= 0 && int(n) < nodeKindLength {
 		return kindName[n]
 	}
 	return ""
-- 
2.43.0


From ed43e804186243b80e37ca08a991ecfc9bdb7222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:53 +0000
Subject: [PATCH 18/56] fix: add the missing name of PINode

---
 nodekind.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nodekind.go b/nodekind.go
index 8f26a29..646a0e4 100644
--- a/nodekind.go
+++ b/nodekind.go
@@ -70,6 +70,7 @@ var kindName = [nodeKindLength]string{
 	DocNode:            "document",
 	ElemNode:           "elem",
 	NotationNode:       "notation",
+	PINode:             "pi",
 	RawNode:            "raw",
 	TextNode:           "text",
 }
@@ -111,6 +112,7 @@ var kindFlag = [nodeKindLength]nodeFlag{
 	DocNode:            docNodeFlag,
 	ElemNode:           elemNodeFlag,
 	NotationNode:       notationNodeFlag,
+	PINode:             pINodeFlag,
 	RawNode:            rawNodeFlag,
 	TextNode:           textNodeFlag,
 }
-- 
2.43.0


From 7f344f2f072d39a4ca516d6d3a2a02c345c1d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 19/56] fix: retain the first error over several calls to
 ErrCollector.Do

---
 errs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errs.go b/errs.go
index fd50dc0..2788c81 100644
--- a/errs.go
+++ b/errs.go
@@ -112,6 +112,9 @@ func (e *ErrCollector) Set(err *error) {
 // that subsequent calls after the first error are safe to make.
 //
 func (e *ErrCollector) Do(errs ...error) {
+	if e.Err != nil {
+		return
+	}
 	for i, err := range errs {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
-- 
2.43.0


From fe4b0f116f86da363920bba1d5b8c2602af69198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 20/56] fix: don't panic in StandardIndenter when ending a node
 is retried after an error

---
 indenter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/indenter.go b/indenter.go
index af51eb4..e72774e 100644
--- a/indenter.go
+++ b/indenter.go
@@ -82,8 +82,11 @@ func (s *StandardIndenter) Indent(w *Writer, last Event, next Event) error {
 			s.depth++
 		} else if next.State == StateEnded {
 			isInline = s.stack[s.depth].indents == 0
-			s.depth--
-			s.stack = s.stack[:len(s.stack)-1]
+			// a node may be ended more than once if writing its end fails
+			if s.depth > 0 {
+				s.depth--
+				s.stack = s.stack[:len(s.stack)-1]
+			}
 		}
 	} else if isIndentedState {
 		isIndented = next.Node == DTDEntityNode ||
-- 
2.43.0


From 4105050ecda84a4b7020480570bc3097f142fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 21/56] fix: accept the letters above U+037D of the Basic
 Multilingual Plane in names

---
 check.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/check.go b/check.go
index 89f4a92..873e52e 100644
--- a/check.go
+++ b/check.go
@@ -34,7 +34,7 @@ func CheckName(name string) error {
 	var rn rune
 	for start, rn = range name {
 		if start == 0 {
-			if rn > 0xFFFF || nameChar[uint16(rn)] != 1 {
+			if (rn > 0xFFFF || nameChar[uint16(rn)] != 1) && !isHighNameStartChar(rn, name) {
 				return fmt.Errorf("xmlwriter: invalid name at position %d: %c", 0, rn)
 			}
 
@@ -44,7 +44,7 @@ func CheckName(name string) error {
 	}
 
 	for i, rn := range name[start:] {
-		if rn > 0xFFFF || nameChar[uint16(rn)] == 0 {
+		if (rn > 0xFFFF || nameChar[uint16(rn)] == 0) && !isHighNameStartChar(rn, name[start+i:]) {
 			return fmt.Errorf("xmlwriter: invalid name at position %d: %c", start+i, rn)
 		}
 	}
@@ -52,6 +52,20 @@ func CheckName(name string) error {
 	return nil
 }
 
+// isHighNameStartChar reports whether rn, which is decoded from the start of s,
+// is one of the characters of the NameStartChar production in the Basic
+// Multilingual Plane that are above those in the nameChar table.
+func isHighNameStartChar(rn rune, s string) bool {
+	if rn == utf8.RuneError {
+		// bytes that are not valid UTF-8 also show up as U+FFFD
+		return strings.HasPrefix(s, "\uFFFD")
+	}
+	return (rn >= 0x37F && rn <= 0x1FFF) || (rn >= 0x200C && rn <= 0x200D) ||
+		(rn >= 0x2070 && rn <= 0x218F) || (rn >= 0x2C00 && rn <= 0x2FEF) ||
+		(rn >= 0x3001 && rn <= 0xD7FF) || (rn >= 0xF900 && rn <= 0xFDCF) ||
+		(rn >= 0xFDF0 && rn <= 0xFFFD)
+}
+
 // CheckChars ensures a string contains characters which are valid in a Text{}
 // node: https://www.w3.org/TR/xml/#NT-Char
 // The 'strict' argument (which xmlwriter should activate by default) ensures
-- 
2.43.0


From e65c957ba1b12687481294e003ce63ce83f3400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 22/56] fix: indent after the content of a node as after any
 other node

---
 node.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/node.go b/node.go
index d797377..7a6a913 100644
--- a/node.go
+++ b/node.go
@@ -119,7 +119,6 @@ func (n *node) open(w *Writer) error {
 func (n *node) opened(w *Writer) error {
 	var err error
 
-	cur := w.current
 	st := n.state
 	n.state = StateOpened
 
@@ -128,6 +127,8 @@ func (n *node) opened(w *Writer) error {
 		if err := w.writeIndent(ev); err != nil {
 			return err
 		}
+		// opened may write the node's content, which follows this event
+		w.last = ev
 	}
 
 	switch n.kind {
@@ -147,13 +148,6 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
-
-	// writing the node's content may have grown w.nodes, in which case n now
-	// refers to the old backing array.
-	n = &w.nodes[cur]
-	if w.Indenter != nil {
-		w.last = Event{n.state, n.kind, n.children}
-	}
 	return err
 }
 
-- 
2.43.0


From 483cc4efd28bb68c67d7c6e011aace270df45911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 23/56] fix: don't end every node in EndToDepth when given the
 largest depth

---
 writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/writer.go b/writer.go
index f7de4d0..4edf394 100644
--- a/writer.go
+++ b/writer.go
@@ -423,11 +423,11 @@ func (w *Writer) EndAll() error {
 //	}
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
-	limit := depth + 1
-	if w.current < limit {
+	if w.current <= depth {
 		// nothing has been started since depth, don't end what was there before
 		return fmt.Errorf("xmlwriter: could not pop node")
 	}
+	limit := depth + 1
 	for {
 		if w.current <= limit {
 			break
-- 
2.43.0


From 34f821db45a3545454f7b7a123dea40f597aabbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 24/56] fix: don't panic in a StandardIndenter not made by
 NewStandardIndenter

---
 indenter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indenter.go b/indenter.go
index e72774e..8f5aaac 100644
--- a/indenter.go
+++ b/indenter.go
@@ -58,6 +58,11 @@ func (s *StandardIndenter) Wrap(content string) string {
 func (s *StandardIndenter) Indent(w *Writer, last Event, next Event) error {
 	// fmt.Print(next.String())
 
+	if len(s.stack) == 0 {
+		// not made by NewStandardIndenter
+		s.stack = append(s.stack, indentLevel{})
+	}
+
 	isIndenting := (next.Node == ElemNode || next.Node == DTDNode ||
 		next.Node == DTDAttListNode)
 
-- 
2.43.0


From 1e0c92a95270b2a10dccf24d1a0b10de66c52ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 25/56] fix: don't announce the content of a PI to the Indenter
 as a raw node

---
 nodes.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nodes.go b/nodes.go
index f61d234..3259beb 100644
--- a/nodes.go
+++ b/nodes.go
@@ -414,9 +414,7 @@ func (p PI) write(w *Writer) error {
 	w.printer.WriteString("<?")
 	w.printer.WriteString(p.Target)
 	w.printer.WriteByte(' ')
-	if err := w.WriteRaw(p.Content); err != nil {
-		return err
-	}
+	w.printer.WriteString(p.Content)
 	w.printer.WriteString("?>")
 
 	err := w.printer.cachedWriteError()
-- 
2.43.0


From 6fe6d67c19578175d43bbc74317ea7f8904f3fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 26/56] fix: write the attributes the normaliser has sorted

---
 tester/ctester/normaliser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index eae5255..1a344d7 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -168,6 +168,10 @@ void xml_elem_start(void *user_data, const expat_ch *name, const expat_ch **atts
     }
     
     qsort(ctx->attrs, attlen, sizeof(struct attr), attr_comp);
+
+    for (size_t i = 0; i < attlen; i++) {
+        xmlTextWriterWriteAttribute(ctx->writer, (lxml_ch*)ctx->attrs[i].name, (lxml_ch*)ctx->attrs[i].value);
+    }
 }
 
 void xml_default(void *user_data, const expat_ch *s, int len) {
-- 
2.43.0


From a06dcab48ec35c3243f25acda7e29fae988ea304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 27/56] fix: leave the content of CDATA sections alone in the
 normaliser

---
 tester/ctester/normaliser.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index 1a344d7..7d716cf 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -64,6 +64,7 @@ struct ctx {
     void (*error_free)(void *p);
 
     bool self_close;
+    bool in_cdata;
     struct attr *attrs;
     size_t attrs_cap;
 };
@@ -179,12 +180,20 @@ void xml_default(void *user_data, const expat_ch *s, int len) {
     ctx->self_close = false;
     lxml_ch *copy;
 
+    // the delimiters of a CDATA section arrive on their own. there are no
+    // entities between them, only text that may look like one.
+    if (len == 9 && strncmp(s, "<![CDATA[", len) == 0) {
+        ctx->in_cdata = true;
+    } else if (len == 3 && strncmp(s, "]]>", len) == 0) {
+        ctx->in_cdata = false;
+    }
+
     // expat seems to deserialise entities in discrete chunks, i.e.  not as
     // part of the character data stream. so we can (hopefully) assume that the
     // default handler gets them complete as a single unit.
     // FIXME: it doesn't apear to do this inside entities, i.e.
     //   <!ENTITY pathpart "([\w_@.&#x25;*?+-]|\\ )">
-    if (ctx->ent_num_mode != ENT_NUM_LEAVE && len > 4 && s[0] == '&' && s[1] == '#' && s[len-1] == ';') {
+    if (!ctx->in_cdata && ctx->ent_num_mode != ENT_NUM_LEAVE && len > 4 && s[0] == '&' && s[1] == '#' && s[len-1] == ';') {
         int base = 10;
         const char *start = s + 2;
         if (s[2] == 'x') {
-- 
2.43.0


From 1c56b0169293bd14408b831a8c77f8101da62e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:29 +0000
Subject: [PATCH 28/56] fix: normalise references to a single digit too

---
 tester/ctester/normaliser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index 7d716cf..86de60e 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -193,7 +193,7 @@ void xml_default(void *user_data, const expat_ch *s, int len) {
     // default handler gets them complete as a single unit.
     // FIXME: it doesn't apear to do this inside entities, i.e.
     //   <!ENTITY pathpart "([\w_@.&#x25;*?+-]|\\ )">
-    if (!ctx->in_cdata && ctx->ent_num_mode != ENT_NUM_LEAVE && len > 4 && s[0] == '&' && s[1] == '#' && s[len-1] == ';') {
+    if (!ctx->in_cdata && ctx->ent_num_mode != ENT_NUM_LEAVE && len > 3 && s[0] == '&' && s[1] == '#' && s[len-1] == ';') {
         int base = 10;
         const char *start = s + 2;
         if (s[2] == 'x') {
-- 
2.43.0


From fc5412379071b64e59b787f5a4a4a5cb3045ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 29/56] fix: accept any white space in the XML declaration

---
 tester/ctester/encfixer.c |  2 +-
 tester/ctester/xml.c      | 19 ++++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/tester/ctester/encfixer.c b/tester/ctester/encfixer.c
index 5a0cfd0..19ca83d 100644
--- a/tester/ctester/encfixer.c
+++ b/tester/ctester/encfixer.c
@@ -40,7 +40,7 @@ int main(int argc, char *argv[]) {
     }
     read += len;
 
-    if (len > 6 && strncmp(buffer, "<?xml ", 6) == 0) {
+    if (len > 6 && strncmp(buffer, "<?xml", 5) == 0 && crap_is_space(buffer[5])) {
         char **atts = NULL;
         char *bufptr = buffer + 6;
         int buflen = len;
diff --git a/tester/ctester/xml.c b/tester/ctester/xml.c
index 7cf2e5c..ffff751 100644
--- a/tester/ctester/xml.c
+++ b/tester/ctester/xml.c
@@ -54,6 +54,11 @@ char *expat_errors[] = {
 #define CRAP_NAME 1
 #define CRAP_QUOTE 2
 #define CRAP_VAL 3
+#define CRAP_EQ 4
+
+static bool crap_is_space(char c) {
+    return c == ' ' || c == '\t' || c == '\r' || c == '\n';
+}
 
 // dear lord we need our own attribute parser now?
 // turns out we don't, i just didn't see the XMLDeclHandler call,
@@ -82,20 +87,28 @@ int crap_atts_parse(const char *in, int len, char ***atts, int *read) {
         switch (state) {
         case CRAP_START:
             if (in[i] == '?') goto done;
-            if (in[i] == ' ') goto next;
+            if (crap_is_space(in[i])) goto next;
             nstart = i; nlen = 0;
             state = CRAP_NAME;
             goto repeat;
         break;
 
         case CRAP_NAME:
-            if (in[i] == ' ') { state = CRAP_START; goto repeat; }
+            if (crap_is_space(in[i])) { state = CRAP_EQ; goto next; }
             if (in[i] == '=') { state = CRAP_QUOTE; goto next; }
             if (in[i] == '?') { rc = 1; goto done; }
             nlen ++;
         break;
 
+        case CRAP_EQ:
+            if (crap_is_space(in[i])) goto next;
+            if (in[i] == '=') { state = CRAP_QUOTE; goto next; }
+            state = CRAP_START;
+            goto repeat;
+        break;
+
         case CRAP_QUOTE:
+            if (crap_is_space(in[i])) goto next;
             if (in[i] == '"' || in[i] == '\'') {
                 qchar = in[i];
                 state = CRAP_VAL;
@@ -139,7 +152,7 @@ void crap_atts_free(char **atts) {
 char *raw_encoding_extract(char *buffer, size_t len) {
     char *ret = NULL;
 
-    if (len > 6 && strncmp(buffer, "<?xml ", 6) == 0) {
+    if (len > 6 && strncmp(buffer, "<?xml", 5) == 0 && crap_is_space(buffer[5])) {
         char **atts = NULL;
         char *bufptr = buffer + 5;
         int buflen = len;
-- 
2.43.0


From 6041d51d17e25ae636d87744e031e9e6f4584050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 30/56] fix: don't shift into the sign bit in sha256

---
 tester/ctester/sha256.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/ctester/sha256.c b/tester/ctester/sha256.c
index eb9c5c0..01308cd 100644
--- a/tester/ctester/sha256.c
+++ b/tester/ctester/sha256.c
@@ -46,7 +46,7 @@ void sha256_transform(SHA256_CTX *ctx, const BYTE data[])
 	WORD a, b, c, d, e, f, g, h, i, j, t1, t2, m[64];
 
 	for (i = 0, j = 0; i < 16; ++i, j += 4)
-		m[i] = (data[j] << 24) | (data[j + 1] << 16) | (data[j + 2] << 8) | (data[j + 3]);
+		m[i] = ((WORD)data[j] << 24) | (data[j + 1] << 16) | (data[j + 2] << 8) | (data[j + 3]);
 	for ( ; i < 64; ++i)
 		m[i] = SIG1(m[i - 2]) + m[i - 7] + SIG0(m[i - 15]) + m[i - 16];
 
-- 
2.43.0


From d1726a3e56f664a8ca9a087aaf716253fd12de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 31/56] fix: don't read past the table of expat errors

---
 tester/ctester/indexer.c     | 4 ++--
 tester/ctester/normaliser.c  | 4 ++--
 tester/ctester/testbuilder.c | 4 ++--
 tester/ctester/xml.c         | 8 ++++++++
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index a3bad95..6a77dd0 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -358,7 +358,7 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
 
                 ctx_errf(&ctx->err, ERR_PARSE_FAIL, 
                     "expat error %s(%d) before completion %ld != %zu", 
-                    expat_errors[err], err, idx, read);
+                    expat_error_name(err), err, idx, read);
                 goto cleanup;
             }
 
@@ -368,7 +368,7 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
                     enum XML_Error err = XML_GetErrorCode(parser);
                     ctx_errf(&ctx->err, ERR_PARSE_STOPPED,
                         "expat stopped %s(%d) before completion %ld != %zu", 
-                        expat_errors[err], err, idx, read);
+                        expat_error_name(err), err, idx, read);
                     goto cleanup;
                 }
             }
diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index 86de60e..929031e 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -273,7 +273,7 @@ int main() {
 
                 ctx_errf(&ctx, N_ERR_PARSE_FAIL, 
                     "expat error %s(%d) before completion %ld != %zu, byte %zu\n", 
-                    expat_errors[err], err, idx, len, read);
+                    expat_error_name(err), err, idx, len, read);
                 goto cleanup;
             }
 
@@ -283,7 +283,7 @@ int main() {
                     enum XML_Error err = XML_GetErrorCode(parser);
                     ctx_errf(&ctx, N_ERR_PARSE_STOPPED,
                         "expat stopped %s(%d) before completion %ld != %zu, byte %zu\n", 
-                        expat_errors[err], err, idx, len, read);
+                        expat_error_name(err), err, idx, len, read);
                     goto cleanup;
                 }
             }
diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index c4746ea..fa2aaa7 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -826,7 +826,7 @@ int main(int argc, char *argv[]) {
 
                 xml_ctx_errf(&ctx, TB_ERR_PARSE_FAIL, 
                     "expat error %s(%d) before completion %ld != %zu, byte %zu\n", 
-                    expat_errors[err], err, idx, len, read);
+                    expat_error_name(err), err, idx, len, read);
                 goto cleanup;
             }
 
@@ -836,7 +836,7 @@ int main(int argc, char *argv[]) {
                     enum XML_Error err = XML_GetErrorCode(parser);
                     xml_ctx_errf(&ctx, TB_ERR_PARSE_STOPPED,
                         "expat stopped %s(%d) before completion %ld != %zu, byte %zu\n", 
-                        expat_errors[err], err, idx, len, read);
+                        expat_error_name(err), err, idx, len, read);
                     goto cleanup;
                 }
             }
diff --git a/tester/ctester/xml.c b/tester/ctester/xml.c
index ffff751..284f3f7 100644
--- a/tester/ctester/xml.c
+++ b/tester/ctester/xml.c
@@ -50,6 +50,14 @@ char *expat_errors[] = {
   [XML_ERROR_RESERVED_NAMESPACE_URI] = "XML_ERROR_RESERVED_NAMESPACE_URI",
 };
 
+// newer versions of expat have errors which are not in the table.
+const char *expat_error_name(enum XML_Error err) {
+    if ((size_t)err >= sizeof(expat_errors) / sizeof(expat_errors[0]) || expat_errors[err] == NULL) {
+        return "unknown error";
+    }
+    return expat_errors[err];
+}
+
 #define CRAP_START 0
 #define CRAP_NAME 1
 #define CRAP_QUOTE 2
-- 
2.43.0


From a1d8546f651bfdca3f4defbddb6d5ed9d34e9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 32/56] fix: don't free an uninitialised buffer when the
 database can't be opened

---
 tester/ctester/indexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 6a77dd0..2f60834 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -519,6 +519,7 @@ int cmd_query(int cargc, char *cargv[]) {
     int rc = OK;
     sqlite3 *db = NULL;
     sqlite3_stmt *stmt = NULL;
+    struct buf buf = {0};
     bool include_errors = false;
     bool include_dupes = false;
 
@@ -553,7 +554,6 @@ int cmd_query(int cargc, char *cargv[]) {
     }
 
     // TODO: status=0 should be disabled by a flag
-    struct buf buf = {0};
     buf_strappend(&buf, "SELECT file FROM xml WHERE ");
     if (!include_errors) {
         buf_strappend(&buf, "status=0 AND ");
-- 
2.43.0


From a6953312f36e4f6e180968411308942833b4cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 33/56] fix: report errors while running the indexer's query

---
 tester/ctester/indexer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 2f60834..7691d2c 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -569,9 +569,13 @@ int cmd_query(int cargc, char *cargv[]) {
         rc = ERR_DB_SELECT; goto cleanup;
     }
 
-    while ((rc = sqlite3_step(stmt) == SQLITE_ROW)) {
+    int step;
+    while ((step = sqlite3_step(stmt)) == SQLITE_ROW) {
         printf("%s\n", sqlite3_column_text(stmt, 0));
     }
+    if (step != SQLITE_DONE) {
+        rc = ERR_DB_SELECT;
+    }
 
 cleanup:
     sqlite3_finalize(stmt);
-- 
2.43.0


From 9cb81775868473d9290d956efd8c62937dba81c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:21 +0000
Subject: [PATCH 34/56] fix: don't free the open nodes of ctester twice

---
 tester/ctester/ctester.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tester/ctester/ctester.c b/tester/ctester/ctester.c
index 75f098b..983fa66 100644
--- a/tester/ctester/ctester.c
+++ b/tester/ctester/ctester.c
@@ -255,6 +255,7 @@ void ctx_end(struct ct_ctx *ctx) {
         free(end);
         end = next;
     }
+    ctx->end = NULL;
 }
 
 void ctx_deinit(struct ct_ctx *ctx) {
-- 
2.43.0


From 3b597e4170f272450a55b5cda7a4d0d7c6e77c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:23 +0000
Subject: [PATCH 35/56] fix: remember that the DTD was ended in ctester

---
 tester/ctester/ctester.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tester/ctester/ctester.c b/tester/ctester/ctester.c
index 983fa66..df8361c 100644
--- a/tester/ctester/ctester.c
+++ b/tester/ctester/ctester.c
@@ -668,7 +668,9 @@ void params_end_dtd_free(void *f) {
 
 int params_end_dtd_run(struct ct_ctx *ctx) {
     ctx->in_dtd = false;
-    return xmlTextWriterEndDTD(ctx->writer) < 0;
+    int rc = xmlTextWriterEndDTD(ctx->writer) < 0;
+    ctx_end_pop(ctx);
+    return rc;
 }
 
 struct params_end_dtd *params_end_dtd_create(bool *valid) {
-- 
2.43.0


From 1c308c4253804ca4f5dd4af2b59752639d29c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 36/56] fix: remember that everything was ended with the
 document in ctester

---
 tester/ctester/ctester.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tester/ctester/ctester.c b/tester/ctester/ctester.c
index df8361c..8055b87 100644
--- a/tester/ctester/ctester.c
+++ b/tester/ctester/ctester.c
@@ -955,7 +955,8 @@ void params_end_doc_free(void *f) {
 
 int params_end_doc_run(struct ct_ctx *ctx) {
     int rc = xmlTextWriterEndDocument(ctx->writer) < 0;
-    ctx_end_pop(ctx);
+    // this ends everything which is still open, not just the document
+    ctx_end(ctx);
     return rc;
 }
 
-- 
2.43.0


From 0aac2aa8056a9f11071cedf32e241585f1ecf483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 37/56] fix: escape the default values of attributes in ctester

---
 tester/ctester/ctester.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tester/ctester/ctester.c b/tester/ctester/ctester.c
index 8055b87..7e67c49 100644
--- a/tester/ctester/ctester.c
+++ b/tester/ctester/ctester.c
@@ -530,7 +530,11 @@ int params_write_dtd_attr_run(struct ct_ctx *ctx) {
                 return 1;
             }
         }
-        if ((ret = xmlTextWriterWriteString(ctx->writer, p->decl)) < 0) {
+        // xmlTextWriterWriteString doesn't escape anything inside a DTD
+        xmlChar *decl = xmlEncodeSpecialChars(NULL, p->decl);
+        ret = xmlTextWriterWriteRaw(ctx->writer, decl);
+        xmlFree(decl);
+        if (ret < 0) {
             return 1;
         }
 		if ((ret = xmlTextWriterWriteRaw(ctx->writer, (xmlChar*)"\"")) < 0) {
-- 
2.43.0


From 1d15c21e41563dbbeac06b0b2db08b88c7b454a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 38/56] fix: don't read past the end of the values of entities
 in the testbuilder

---
 tester/ctester/testbuilder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index fa2aaa7..0e6e5f9 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -429,7 +429,8 @@ void xml_default(void *user_data, const expat_ch *s, int len) {
 // of course that means copypasta!
 void xmlDumpEntityContent(xmlBufferPtr buf, const xmlChar *content, int len) {
     if (buf->alloc == XML_BUFFER_ALLOC_IMMUTABLE) return;
-    if (xmlStrchr(content, '%')) {
+    // content is not null terminated
+    if (memchr(content, '%', len)) {
         const xmlChar * base, *cur;
 
         base = cur = content;
@@ -536,7 +537,7 @@ void xml_entity_decl (
     // my hard drive looking for entities, then look at what the convention
     // is for encoding them. I suspect even in UTF-8 documents the convention
     // is to convert >127 chars to entities. Normaliser can have that as a rule.
-    if (value_length == 2 && strcmp(value, "\xC2\xA0") == 0) {
+    if (value_length == 2 && memcmp(value, "\xC2\xA0", 2) == 0) {
         xmlTextWriterWriteString(ctx->writer, (lxml_ch*)"&#160;");
         value_length = 6;
         raw = true;
-- 
2.43.0


From 3905d0db079c4671820750749e3277f4f554aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 39/56] fix: don't exhaust the stack on deep content models in
 the testbuilder

---
 tester/ctester/testbuilder.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index 0e6e5f9..bccd4ee 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -558,7 +558,16 @@ void xml_entity_decl (
 }
 
 
-void xml_element_decl_child(struct xml_ctx *ctx, XML_Content *model) {
+// content models nested deeper than this could exhaust the stack
+#define MAX_MODEL_DEPTH 20000
+
+void xml_element_decl_child(struct xml_ctx *ctx, XML_Content *model, int depth) {
+    if (depth > MAX_MODEL_DEPTH) {
+        xml_ctx_err(ctx, TB_ERR_UNHANDLED, "element decl nested too deeply");
+        XML_StopParser(ctx->parser, false);
+        return;
+    }
+
     char *sep = "";
     bool first = true;
     xml_ctx_append(ctx, "(");
@@ -589,7 +598,7 @@ void xml_element_decl_child(struct xml_ctx *ctx, XML_Content *model) {
         case XML_CTYPE_MIXED:
         case XML_CTYPE_CHOICE:
         case XML_CTYPE_SEQ:
-            xml_element_decl_child(ctx, child);
+            xml_element_decl_child(ctx, child, depth + 1);
         break;
         default:
             // no dessert for you!
@@ -635,7 +644,7 @@ void xml_element_decl(void *user_data, const expat_ch *name, XML_Content *model)
     case XML_CTYPE_MIXED:
     case XML_CTYPE_SEQ:
     case XML_CTYPE_CHOICE:
-        xml_element_decl_child(ctx, model);
+        xml_element_decl_child(ctx, model, 1);
         switch (model->quant) {
         case XML_CQUANT_NONE : break;
         case XML_CQUANT_OPT  : xml_ctx_append(ctx, "?"); break;
-- 
2.43.0


From 55f99174885fa9295a3a800ba0368828a262076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 40/56] fix: end the attribute list before a comment or PI in
 the testbuilder

---
 tester/ctester/testbuilder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index bccd4ee..77de8bc 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -319,6 +319,10 @@ void xml_character_data(void *user_data, const expat_ch *s, int len) {
 /* target and data are 0 terminated */
 void xml_pi(void *user_data, const expat_ch *target, const expat_ch *data) {
     struct xml_ctx *ctx = user_data;
+    if (ctx->in_attlist) {
+        command_write(ctx, "end", "dtd-att-list", __FUNCTION__);
+        ctx->in_attlist = false;
+    }
     command_start(ctx, "write", "pi", __FUNCTION__);
     command_attr(ctx->writer, "target", target);
     command_end_content(ctx, data);
@@ -327,6 +331,10 @@ void xml_pi(void *user_data, const expat_ch *target, const expat_ch *data) {
 /* data is 0 terminated */
 void xml_comment (void *user_data, const expat_ch *data) {
     struct xml_ctx *ctx = user_data;
+    if (ctx->in_attlist) {
+        command_write(ctx, "end", "dtd-att-list", __FUNCTION__);
+        ctx->in_attlist = false;
+    }
     command_start(ctx, "write", "comment", __FUNCTION__);
     command_end_content(ctx, data);
 }
-- 
2.43.0


From d8c1167e16be890b392e92b6884fd768ed315200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 41/56] fix: don't merge the attribute lists of different
 elements in the testbuilder

---
 tester/ctester/testbuilder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index 77de8bc..810d976 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -65,6 +65,7 @@ struct xml_ctx {
     bool doc;
     bool in_dtd;
     bool in_attlist;
+    char *attlist; // name of the element of the last attlist
 
     const expat_ch **ns; size_t nslen; size_t nssz;
     const expat_ch **as; size_t aslen; size_t assz;
@@ -100,6 +101,7 @@ void xml_ctx_deinit(struct xml_ctx *ctx) {
     ctx->sz = 0;
     free(ctx->ns);
     free(ctx->as);
+    free(ctx->attlist);
 }
 
 void xml_ctx_clear(struct xml_ctx *ctx) {
@@ -685,7 +687,13 @@ void xml_attlist_decl(
     int              isrequired
 ) {
     struct xml_ctx *ctx = user_data;
+    if (ctx->in_attlist && strcmp(ctx->attlist, elname) != 0) {
+        command_write(ctx, "end", "dtd-att-list", __FUNCTION__);
+        ctx->in_attlist = false;
+    }
     if (!ctx->in_attlist) {
+        free(ctx->attlist);
+        ctx->attlist = strdup(elname);
         command_start(ctx, "start", "dtd-att-list", __FUNCTION__);
         command_attr(ctx->writer, "name", elname);
         command_end(ctx);
-- 
2.43.0


From 357529c6aec5f192867c2eaa38063b915446a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 42/56] fix: write the space after NOTATION in attribute types
 in the testbuilder

---
 tester/ctester/testbuilder.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index 810d976..0ba23d8 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -701,7 +701,15 @@ void xml_attlist_decl(
     }
     command_start(ctx, "write", "dtd-attr", __FUNCTION__);
     command_attr(ctx->writer, "name", attname);
-    command_attr(ctx->writer, "type", att_type);
+    if (str_has_prefix(att_type, "NOTATION(")) {
+        // expat removes the space, which is not optional
+        char *type = NULL;
+        asprintf(&type, "NOTATION %s", att_type + strlen("NOTATION"));
+        command_attr(ctx->writer, "type", type);
+        free(type);
+    } else {
+        command_attr(ctx->writer, "type", att_type);
+    }
     if (dflt != NULL) {
         command_attr(ctx->writer, "decl", dflt);
     }
-- 
2.43.0


From d5ff9334ff59ed6ddb0fa04bcbb8d8a206517129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 43/56] fix: write quotes in the values of entities as
 character references in the testbuilder

---
 tester/ctester/testbuilder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index 0ba23d8..f93df6f 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -440,7 +440,8 @@ void xml_default(void *user_data, const expat_ch *s, int len) {
 void xmlDumpEntityContent(xmlBufferPtr buf, const xmlChar *content, int len) {
     if (buf->alloc == XML_BUFFER_ALLOC_IMMUTABLE) return;
     // content is not null terminated
-    if (memchr(content, '%', len)) {
+    // '"' can't be written as it is if content has both kinds of quote.
+    if (memchr(content, '%', len) || (memchr(content, '"', len) && memchr(content, '\'', len))) {
         const xmlChar * base, *cur;
 
         base = cur = content;
@@ -448,7 +449,7 @@ void xmlDumpEntityContent(xmlBufferPtr buf, const xmlChar *content, int len) {
             if (*cur == '"') {
                 if (base != cur)
                     xmlBufferAdd(buf, base, cur - base);
-                xmlBufferAdd(buf, BAD_CAST "&quot;", 6);
+                xmlBufferAdd(buf, BAD_CAST "&#34;", 5);
                 cur++;
                 base = cur;
             } else if (*cur == '%') {
-- 
2.43.0


From bfee3fb97aff3b94ba1128b4360fb89073fd4f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:08 +0000
Subject: [PATCH 44/56] fix: count prefixed attributes by their own name in the
 indexer

---
 tester/ctester/indexer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 7691d2c..f02907f 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -148,17 +148,22 @@ void dump_current(struct current *current) {
     printf("max_depth\t%d\n"        , current->max_depth);
 }
 
+static bool has_prefix(const expat_ch *name) {
+    const expat_ch *sep = strchr(name, ':');
+    return sep != NULL && sep > name;
+}
+
 void xml_elem_start(void *user_data, const expat_ch *name, const expat_ch **atts) {
     struct index_ctx *ctx = user_data;
     
-    if (strchr(name, ':') > name) {
+    if (has_prefix(name)) {
         ctx->current->nselems++;
     } else {
         ctx->current->elems++;
     }
 
     for (size_t i = 0; atts[i]; i+=2) {
-        if (strchr(name, ':') > name) {
+        if (has_prefix(atts[i])) {
             ctx->current->nsattrs++;
         } else {
             ctx->current->attrs++;
-- 
2.43.0


From 8545ec9fa767b134d210735461ead5d90461e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:09 +0000
Subject: [PATCH 45/56] fix: count references to entities with a name of one
 letter in the indexer

---
 tester/ctester/indexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index f02907f..f12e6c7 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -217,7 +217,7 @@ void xml_comment(void *user_data, const expat_ch *data) {
 
 void xml_default(void *user_data, const expat_ch *s, int len) {
     struct index_ctx *ctx = user_data;
-    if (len > 3 && s[0] == '&' && s[len-1] == ';') {
+    if (len > 2 && s[0] == '&' && s[len-1] == ';') {
         if (s[1] == '#' && s[2] == 'x') {
             ctx->current->entity_refs_hex++;
         } else if (s[1] == '#') {
-- 
2.43.0


From 3506cc5d967eb3a2c3188d385dc4126a865063c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 46/56] fix: don't count an internal DTD as one with a system
 ID in the indexer

---
 tester/ctester/indexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index f12e6c7..58e9c4e 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -239,7 +239,7 @@ void xml_doctype_start(
     struct index_ctx *ctx = user_data;
     if (sysid != NULL && pubid != NULL) {
         ctx->current->dtds_public++;
-    } else {
+    } else if (sysid != NULL) {
         ctx->current->dtds_system++;
     }
 }
-- 
2.43.0


From 21bd7043ab76a6edf79e1651a341c7dca4abf815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 47/56] fix: don't let sqlite turn file names, hashes and
 versions into numbers

---
 tester/ctester/indexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 58e9c4e..0fd952a 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -447,8 +447,8 @@ int cmd_index(int cargc, char *cargv[]) {
     // TODO: capture total bytes, bytes read
     if ((sqlite3_exec(db, 
         "CREATE TABLE xml("
-            "file STRING PRIMARY KEY, hash STRING, status INT, msg TEXT, bytes INTEGER, raw_encoding STRING, "
-            "encoding STRING, version STRING, elems INTEGER, "
+            "file TEXT PRIMARY KEY, hash TEXT, status INT, msg TEXT, bytes INTEGER, raw_encoding TEXT, "
+            "encoding TEXT, version TEXT, elems INTEGER, "
             "nselems INTEGER, attrs INTEGER, nsattrs INTEGER, comments INTEGER, "
             "comment_bytes INTEGER, comment_max INTEGER, cdatas INTEGER, pis INTEGER, "
             "dtds_public INTEGER, dtds_system INTEGER, dtd_elems INTEGER, dtd_attlists INTEGER, "
-- 
2.43.0


From 875ea8fffeb8e741ad28652e5e3f73181c7872fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 48/56] fix: index the hash and the size of the whole file if
 it can't be parsed

---
 tester/ctester/indexer.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 0fd952a..b277fd2 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -334,11 +334,13 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
 
     /* XML_SetUnknownEncodingHandler(parser, xml_unknown_encoding, NULL); */
 
+    #define READ_SIZE 8192
+    char buffer[READ_SIZE];
+    size_t read = 0;
+    size_t rest = 0;
+
     {
-        #define READ_SIZE 8192
-        char buffer[READ_SIZE];
         bool done = false;
-        size_t read = 0;
         while (!done) {
             size_t len = fread(&buffer, sizeof(char), READ_SIZE, fp);
             if (read == 0) {
@@ -350,7 +352,6 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
             read += len;
             if (len < READ_SIZE) {
                 done = true;
-                ctx->current->bytes = read;
             }
             // is this legal? can't really find much on how safe it is.
             sha256_update(&sha, (unsigned char *)buffer, len);
@@ -381,6 +382,13 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
     }
 
 cleanup:;
+    // if the file could not be parsed, there may be some of it left
+    while ((rest = fread(buffer, sizeof(char), READ_SIZE, fp)) > 0) {
+        read += rest;
+        sha256_update(&sha, (unsigned char *)buffer, rest);
+    }
+    ctx->current->bytes = read;
+
     sha256_final(&sha, hash);
     char *hash_cur = hash_str;
     for (size_t i = 0; i < SHA256_BLOCK_SIZE; i++) {
-- 
2.43.0


From 6a2c752b334b6160837dd6a07dda345fcbe3bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 49/56] fix: don't crash in the indexer when there is no mime
 type

---
 tester/ctester/indexer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index b277fd2..5873199 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -298,6 +298,10 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
         return ctx_errf(&ctx->err, ERR_OPEN, "could not open file %s", file);
     }
     const char *mime = magic_file(magic, file);
+    if (mime == NULL) {
+        fclose(fp);
+        return ctx_errf(&ctx->err, ERR_OPEN, "could not find mime type: %s", magic_error(magic));
+    }
     if (strcmp(mime, "text/plain") != 0 &&
         strcmp(mime, "application/xml") != 0) {
         fclose(fp);
-- 
2.43.0


From a36be47c2a137df1fd31ea25192f0d52b4a2a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:01 +0000
Subject: [PATCH 50/56] fix: don't refuse documents with a token longer than a
 read

---
 tester/ctester/indexer.c     | 3 ++-
 tester/ctester/normaliser.c  | 3 ++-
 tester/ctester/testbuilder.c | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 5873199..3b976c8 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -363,7 +363,8 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
             enum XML_Status status = XML_Parse(parser, buffer, len, done);
 
             XML_Index idx = XML_GetCurrentByteIndex(parser);
-            if (idx < 0 || status != XML_STATUS_OK) {
+            // the index is not known while expat waits for the rest of a long token
+            if ((idx < 0 && done) || status != XML_STATUS_OK) {
                 enum XML_Error err = XML_GetErrorCode(parser);
 
                 ctx_errf(&ctx->err, ERR_PARSE_FAIL, 
diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index 929031e..961445d 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -268,7 +268,8 @@ int main() {
             enum XML_Status status = XML_Parse(parser, buffer, len, done);
 
             XML_Index idx = XML_GetCurrentByteIndex(parser);
-            if (idx < 0 || status != XML_STATUS_OK) {
+            // the index is not known while expat waits for the rest of a long token
+            if ((idx < 0 && done) || status != XML_STATUS_OK) {
                 enum XML_Error err = XML_GetErrorCode(parser);
 
                 ctx_errf(&ctx, N_ERR_PARSE_FAIL, 
diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index f93df6f..cba7b01 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -856,7 +856,8 @@ int main(int argc, char *argv[]) {
             enum XML_Status status = XML_Parse(parser, buffer, len, done);
 
             XML_Index idx = XML_GetCurrentByteIndex(parser);
-            if (idx < 0 || status != XML_STATUS_OK) {
+            // the index is not known while expat waits for the rest of a long token
+            if ((idx < 0 && done) || status != XML_STATUS_OK) {
                 enum XML_Error err = XML_GetErrorCode(parser);
 
                 xml_ctx_errf(&ctx, TB_ERR_PARSE_FAIL, 
-- 
2.43.0


From dbafa915cc480a0fbeee292a1698e8c02aa9160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 51/56] fix: don't count references in CDATA sections in the
 indexer

---
 tester/ctester/indexer.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 3b976c8..4c6c823 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -96,6 +96,7 @@ struct current {
     size_t comment_bytes;
     size_t comment_max;
     size_t cdatas;
+    bool in_cdata;
     size_t pis;
     size_t dtds_public;
     size_t dtds_system;
@@ -203,6 +204,12 @@ void xml_decl(void *user_data,
 void xml_cdata_start(void *user_data) {
     struct index_ctx *ctx = user_data;
     ctx->current->cdatas++;
+    ctx->current->in_cdata = true;
+}
+
+void xml_cdata_end(void *user_data) {
+    struct index_ctx *ctx = user_data;
+    ctx->current->in_cdata = false;
 }
 
 void xml_comment(void *user_data, const expat_ch *data) {
@@ -217,7 +224,8 @@ void xml_comment(void *user_data, const expat_ch *data) {
 
 void xml_default(void *user_data, const expat_ch *s, int len) {
     struct index_ctx *ctx = user_data;
-    if (len > 2 && s[0] == '&' && s[len-1] == ';') {
+    // there are no references in a CDATA section
+    if (!ctx->current->in_cdata && len > 2 && s[0] == '&' && s[len-1] == ';') {
         if (s[1] == '#' && s[2] == 'x') {
             ctx->current->entity_refs_hex++;
         } else if (s[1] == '#') {
@@ -323,7 +331,7 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
     XML_SetXmlDeclHandler(parser, xml_decl);
     XML_SetProcessingInstructionHandler(parser, xml_pi);
     XML_SetCommentHandler(parser, xml_comment);
-    XML_SetStartCdataSectionHandler(parser, xml_cdata_start);
+    XML_SetCdataSectionHandler(parser, xml_cdata_start, xml_cdata_end);
     XML_SetEntityDeclHandler(parser, xml_entity_decl);
     XML_SetElementDeclHandler(parser, xml_element_decl);
     XML_SetAttlistDeclHandler(parser, xml_attlist_decl);
-- 
2.43.0


From d3e7322e36730bee99a075f83e790b4bb168ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 52/56] fix: strip only the white space of XML in gotester

---
 tester/gotester/xwrunner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/gotester/xwrunner.go b/tester/gotester/xwrunner.go
index 6a29cb3..ddc33e0 100644
--- a/tester/gotester/xwrunner.go
+++ b/tester/gotester/xwrunner.go
@@ -77,7 +77,7 @@ func (e ErrUnknownParam) Error() string {
 func (c Command) CleanContent() string {
 	r := c.Content
 	if c.WS == "strip" {
-		r = wsStrip.ReplaceAllString(strings.TrimSpace(r), " ")
+		r = wsStrip.ReplaceAllString(strings.Trim(r, "\n\r\t "), " ")
 	}
 	return r
 }
-- 
2.43.0


From 8e103e5aa4773dec6afd08063f6b2e5cb36cabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 53/56] fix: don't end a document twice in ctester

---
 tester/ctester/ctester.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tester/ctester/ctester.c b/tester/ctester/ctester.c
index 7e67c49..2bc5310 100644
--- a/tester/ctester/ctester.c
+++ b/tester/ctester/ctester.c
@@ -1078,22 +1078,19 @@ void params_end_all_free(void *f) {
 }
 
 int params_end_all_run(struct ct_ctx *ctx) {
-    struct ctx_end *end = ctx->end;
     int rc = 0;
 
     struct params *oldparams = ctx->params;
-    while (end) {
-        // end->parent will get freed by end->params->run
-        struct ctx_end *next = end->parent;
-        ctx->params = end->params;
+    while (ctx->end) {
+        // ctx->end will get popped by ctx->end->params->run, together with
+        // its parents if it is a document
+        ctx->params = ctx->end->params;
 
-        if ((rc = end->params->run(ctx)) != 0) {
+        if ((rc = ctx->params->run(ctx)) != 0) {
             return rc;
         }
-        end = next;
     }
     ctx->params = oldparams;
-    ctx_end(ctx);
     return 0;
 }
 
-- 
2.43.0


From fa0fbe20c9b9c8461692f85ddb8b804baabd0a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:21 +0000
Subject: [PATCH 54/56] fix: don't leave out the last file of a list without a
 final newline

---
 tester/run.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/run.sh b/tester/run.sh
index aebb664..44057fd 100755
--- a/tester/run.sh
+++ b/tester/run.sh
@@ -100,7 +100,7 @@ pass=0
 skip=0
 fail=0
 
-while read -r line; do
+while read -r line || [[ -n "$line" ]]; do
     if [[ ! -f "$line" ]]; then
         skip "file does not exist"
         continue
-- 
2.43.0


From 956d7b7ede299a039deda727acdcee51fefe42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 55/56] fix: gotester: understand and check every boolean
 parameter as ctester does

---
 tester/gotester/xwrunner.go | 44 +++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/tester/gotester/xwrunner.go b/tester/gotester/xwrunner.go
index ddc33e0..c62db99 100644
--- a/tester/gotester/xwrunner.go
+++ b/tester/gotester/xwrunner.go
@@ -82,6 +82,17 @@ func (c Command) CleanContent() string {
 	return r
 }
 
+func parseBool(v string) (bool, error) {
+	switch strings.ToLower(v) {
+	case "yes", "true":
+		return true, nil
+	case "no", "false":
+		return false, nil
+	default:
+		return false, fmt.Errorf("invalid boolean value")
+	}
+}
+
 // XWRunner is an xwrunner.
 type XWRunner struct {
 	writer  io.Writer
@@ -175,7 +186,11 @@ var writers = map[string]func(r *XWRunner, command Command) error{
 				// TODO: validate
 				attr.Type = xw.DTDAttrType(p.Value)
 			case "required":
-				required = strings.ToLower(p.Value) == "true"
+				v, err := parseBool(p.Value)
+				if err != nil {
+					return err
+				}
+				required = v
 			default:
 				return NewErrUnknownParam(command, p.Name.Local)
 			}
@@ -214,7 +229,11 @@ var writers = map[string]func(r *XWRunner, command Command) error{
 		for _, p := range command.Params {
 			switch p.Name.Local {
 			case "is-pe":
-				entity.IsPE = strings.ToLower(p.Value) == "true"
+				v, err := parseBool(p.Value)
+				if err != nil {
+					return err
+				}
+				entity.IsPE = v
 			case "ndata-id":
 				entity.NDataID = p.Value
 			case "system-id":
@@ -262,11 +281,11 @@ var writers = map[string]func(r *XWRunner, command Command) error{
 		for _, p := range command.Params {
 			switch p.Name.Local {
 			case "next":
-				l := strings.ToLower(p.Value)
-				if l != "yes" && l != "no" && l != "true" && l != "false" {
-					return fmt.Errorf("invalid boolean value")
+				v, err := parseBool(p.Value)
+				if err != nil {
+					return err
 				}
-				next = l == "yes" || l == "true"
+				next = v
 			default:
 				return NewErrUnknownParam(command, p.Name.Local)
 			}
@@ -325,11 +344,10 @@ var starters = map[string]func(r *XWRunner, command Command) error{
 				doc.ForcedEncoding = &v
 				doc.SuppressEncoding = false
 			case "standalone":
-				l := strings.ToLower(p.Value)
-				if l != "yes" && l != "no" && l != "true" && l != "false" {
-					return fmt.Errorf("invalid boolean value")
+				yep, err := parseBool(p.Value)
+				if err != nil {
+					return err
 				}
-				yep := (l == "yes" || l == "true")
 				doc.Standalone = &yep
 			default:
 				return NewErrUnknownParam(command, p.Name.Local)
@@ -435,7 +453,11 @@ var enders = map[string]func(r *XWRunner, command Command) error{
 		for _, param := range command.Params {
 			switch param.Name.Local {
 			case "full":
-				full = strings.ToLower(param.Value) == "true"
+				v, err := parseBool(param.Value)
+				if err != nil {
+					return err
+				}
+				full = v
 			default:
 				return fmt.Errorf("unknown end element param")
 			}
-- 
2.43.0


From 38c493d974806c4dac542bb2455ccd0fc86d31bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 56/56] fix: ctester: understand and check standalone as any
 other boolean

---
 tester/ctester/ctester.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tester/ctester/ctester.c b/tester/ctester/ctester.c
index 2bc5310..cd0da74 100644
--- a/tester/ctester/ctester.c
+++ b/tester/ctester/ctester.c
@@ -1011,7 +1011,14 @@ struct params_start_doc *params_start_doc_create(xmlChar *encoding, xmlChar *ver
 
     p->encoding = encoding;
     p->version = version;
-    p->standalone = standalone;
+    if (standalone != NULL) {
+        bool yes = false;
+        if (bool_from_xml(standalone, &yes) != 0) {
+            *valid = false;
+        }
+        xmlFree(standalone);
+        p->standalone = xmlStrdup((xmlChar *)(yes ? "yes" : "no"));
+    }
     return p;
 }
 // }}} start_doc
-- 
2.43.0

