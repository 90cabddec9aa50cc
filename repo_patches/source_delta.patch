From 5a81dca0164e0d4e2c309f9f564df89f03952978 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 01/83] fix: do not serialise characters outside the XML Char
 range as character references

---
 dump.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dump.go b/dump.go
index 0e1983b..84750a1 100644
--- a/dump.go
+++ b/dump.go
@@ -70,7 +70,7 @@ func isInCharacterRange(r rune) (inrange bool) {
 	return r == 0x09 ||
 		r == 0x0A ||
 		r == 0x0D ||
-		r >= 0x20 && r <= 0xDF77 ||
+		r >= 0x20 && r <= 0xD7FF ||
 		r >= 0xE000 && r <= 0xFFFD ||
 		r >= 0x10000 && r <= 0x10FFFF
 }
@@ -107,7 +107,7 @@ func escapeAttrValue(w io.Writer, s []byte) error {
 			esc = esc_tab
 		default:
 			if !(0x20 <= r && r < 0x80) {
-				if r < 0xE0 {
+				if r < 0xE0 && isInCharacterRange(r) {
 					esc = []byte(fmt.Sprintf("&#x%X;", r))
 					break
 				}
@@ -167,7 +167,7 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 			esc = esc_cr
 		default:
 			if !(r == '\t' || (0x20 <= r && r < 0x80)) {
-				if r < 0xE0 {
+				if r < 0xE0 && isInCharacterRange(r) {
 					esc = []byte(fmt.Sprintf("&#x%X;", r))
 					break
 				}
-- 
2.43.0


From ebc6390562cd7a919e4160f648e98acdaa67c81f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 02/83] fix: dumpQuotedString dropped double quotes when both
 quote kinds are present

---
 dump.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dump.go b/dump.go
index 84750a1..fee90e3 100644
--- a/dump.go
+++ b/dump.go
@@ -40,6 +40,7 @@ func dumpQuotedString(out io.Writer, s string) error {
 	out.Write(qch_dquote)
 	for len(s) > 0 && dqi > -1 {
 		io.WriteString(out, s[:dqi])
+		io.WriteString(out, "&quot;")
 		s = s[dqi+1:]
 		dqi = strings.IndexByte(s, qch_dquote[0])
 	}
-- 
2.43.0


From 7590ba8bf4362666c15d60ce8761782c26891187 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 03/83] fix: serialise processing instructions instead of an
 empty tag

---
 dump.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dump.go b/dump.go
index fee90e3..5b7a724 100644
--- a/dump.go
+++ b/dump.go
@@ -631,6 +631,16 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		out.Write(n.Content())
 		io.WriteString(out, "-->")
 		return nil
+	case ProcessingInstructionNode:
+		pi := n.(*ProcessingInstruction)
+		io.WriteString(out, "<?")
+		io.WriteString(out, pi.target)
+		if pi.data != "" {
+			io.WriteString(out, " ")
+			io.WriteString(out, pi.data)
+		}
+		io.WriteString(out, "?>")
+		return nil
 	case EntityRefNode:
 		io.WriteString(out, "&")
 		io.WriteString(out, n.Name())
-- 
2.43.0


From 377fd1fae54e4cf658d10115fd209e26614320c9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 04/83] fix: serialise ENTITIES attribute declarations

---
 dump.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dump.go b/dump.go
index 5b7a724..04634b3 100644
--- a/dump.go
+++ b/dump.go
@@ -541,6 +541,8 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		io.WriteString(out, " IDREFS")
 	case AttrEntity:
 		io.WriteString(out, " ENTITY")
+	case AttrEntities:
+		io.WriteString(out, " ENTITIES")
 	case AttrNmtoken:
 		io.WriteString(out, " NMTOKEN")
 	case AttrNmtokens:
-- 
2.43.0


From 2c306a80bd990ee90d88b6daa3e927198ffa29fc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 05/83] fix: external entity declarations: PUBLIC/SYSTEM were
 swapped, parameter entities unterminated

---
 dump.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index 04634b3..da09832 100644
--- a/dump.go
+++ b/dump.go
@@ -451,7 +451,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 	case ExternalGeneralParsedEntity, ExternalGeneralUnparsedEntity:
 		io.WriteString(out, "<!ENTITY ")
 		io.WriteString(out, ent.name)
-		if ent.externalID == "" {
+		if ent.externalID != "" {
 			io.WriteString(out, " PUBLIC ")
 			dumpQuotedString(out, ent.externalID)
 			io.WriteString(out, " ")
@@ -494,6 +494,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 			io.WriteString(out, " SYSTEM ")
 			dumpQuotedString(out, ent.systemID)
 		}
+		io.WriteString(out, ">\n")
 	default:
 		return errors.New("invalid entity type")
 	}
-- 
2.43.0


From ce4b712a4f463ac7d01304b82d8a7448bbc4ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 06/83] fix: quote the identifiers of a DOCTYPE declaration and
 keep the system identifier after PUBLIC

---
 dump.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dump.go b/dump.go
index da09832..ac9e0c6 100644
--- a/dump.go
+++ b/dump.go
@@ -258,11 +258,13 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 
 	if dtd.externalID != "" {
 		io.WriteString(out, " PUBLIC ")
-		io.WriteString(out, dtd.externalID)
+		dumpQuotedString(out, dtd.externalID)
+		io.WriteString(out, " ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	} else if dtd.systemID != "" {
 		io.WriteString(out, " SYSTEM ")
-		io.WriteString(out, dtd.systemID)
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	}
 
-- 
2.43.0


From 2437f5be9c8bd5ef88bed27aef9e0dfea4c1ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 07/83] fix: CreateAttribute set lastChild on the value node
 instead of the attribute

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 1feb434..109bdd3 100644
--- a/document.go
+++ b/document.go
@@ -153,7 +153,7 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 			n.SetParent(attr)
 			x := n.NextSibling()
 			if x == nil {
-				n.setLastChild(x)
+				attr.setLastChild(n)
 			}
 			n = x
 		}
-- 
2.43.0


From f7d8efdc9fd59787481319c43385c136c97523ee Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 08/83] fix: comments must not share the caller's buffer

---
 comment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/comment.go b/comment.go
index eb00975..9355f73 100644
--- a/comment.go
+++ b/comment.go
@@ -3,7 +3,8 @@ package helium
 func newComment(b []byte) *Comment {
 	t := Comment{}
 	t.etype = CommentNode
-	t.content = b
+	t.content = make([]byte, len(b))
+	copy(t.content, b)
 	return &t
 }
 
-- 
2.43.0


From 0ff481f78a362f6048ae5ae9268e27c7a63e884a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 09/83] fix: the first declaration of an entity is binding

---
 dtd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dtd.go b/dtd.go
index 63e72b2..8e15787 100644
--- a/dtd.go
+++ b/dtd.go
@@ -36,7 +36,11 @@ func (dtd *DTD) AddEntity(name string, typ EntityType, publicID, systemID, conte
 
 	ent := newEntity(name, typ, publicID, systemID, content, "")
 	ent.doc = dtd.doc
-	table[name] = ent
+	// XML 1.0, 4.2: if the same entity is declared more than once, the
+	// first declaration encountered is binding
+	if _, ok := table[name]; !ok {
+		table[name] = ent
+	}
 
 	dtd.AddChild(ent)
 	return ent, nil
-- 
2.43.0


From 0e97bb40ff5dbb344bbc0a0531652d90a6ef4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 10/83] fix: the content of an entity reference included the
 entities declared after it

---
 reference.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reference.go b/reference.go
index 1eb07e8..eb95a8c 100644
--- a/reference.go
+++ b/reference.go
@@ -22,6 +22,13 @@ func (e *EntityRef) Replace(cur Node) {
 	replaceNode(e, cur)
 }
 
+// Content returns the content of the referenced entity. The first child
+// of a reference is the entity itself, whose siblings are the other
+// declarations in the DTD, so it must not be computed from the children.
+func (e EntityRef) Content() []byte {
+	return e.content
+}
+
 func (n *EntityRef) SetTreeDoc(doc *Document) {
 	setTreeDoc(n, doc)
 }
-- 
2.43.0


From 32a36439ffe3a96fabfdf7d91a2eb941d2e94d2d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 11/83] fix: unlink a replaced node from its former parent and
 siblings

---
 node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node.go b/node.go
index 74c637c..1d5ea4b 100644
--- a/node.go
+++ b/node.go
@@ -184,6 +184,10 @@ func replaceNode(n Node, cur Node) {
 		}
 		cur.SetParent(parent)
 	}
+
+	n.SetParent(nil)
+	n.SetPrevSibling(nil)
+	n.SetNextSibling(nil)
 }
 
 func (n node) Namespace() *Namespace {
-- 
2.43.0


From 4df1d4a10278ad1c7c522beb8b61ad99de0ae05e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 12/83] fix: a processing instruction in the DTD was linked
 into two child lists

---
 tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index d1cfd2a..e3df9f2 100644
--- a/tree.go
+++ b/tree.go
@@ -57,9 +57,9 @@ func (t *TreeBuilder) ProcessingInstruction(ctxif sax.Context, target, data stri
 
 	switch ctx.inSubset {
 	case 1:
-		doc.IntSubset().AddChild(pi)
+		return doc.IntSubset().AddChild(pi)
 	case 2:
-		doc.ExtSubset().AddChild(pi)
+		return doc.ExtSubset().AddChild(pi)
 	}
 
 	parent := ctx.elem
-- 
2.43.0


From 822d8d5ea8259fe5639b8e31801cc4a94200dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 13/83] fix: a comment in the DTD belongs to the DTD

---
 tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tree.go b/tree.go
index e3df9f2..4492163 100644
--- a/tree.go
+++ b/tree.go
@@ -200,6 +200,13 @@ func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
 		return err
 	}
 
+	switch ctx.inSubset {
+	case 1:
+		return doc.IntSubset().AddChild(e)
+	case 2:
+		return doc.ExtSubset().AddChild(e)
+	}
+
 	n := ctx.elem
 	if n == nil {
 		doc.AddChild(e)
-- 
2.43.0


From 6102b86d8acb8d4b6b8e0651a013dfda1bb67935 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 14/83] fix: keep the content of CDATA sections in the tree

---
 tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 4492163..54ea3ac 100644
--- a/tree.go
+++ b/tree.go
@@ -175,12 +175,12 @@ func (t *TreeBuilder) Characters(ctxif sax.Context, data []byte) error {
 	return n.AddContent(data)
 }
 
-func (t *TreeBuilder) CDataBlock(_ sax.Context, data []byte) error {
+func (t *TreeBuilder) CDataBlock(ctxif sax.Context, data []byte) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START tree.CDATABlock")
 		defer g.IRelease("END tree.CDATABlock")
 	}
-	return nil
+	return t.Characters(ctxif, data)
 }
 
 func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
-- 
2.43.0


From 697a4737f6f8c832e85f0c822baa4b62d4699238 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 15/83] fix: set the type, parent of an attribute node

---
 attr.go    | 1 +
 element.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/attr.go b/attr.go
index 080f304..7ae650e 100644
--- a/attr.go
+++ b/attr.go
@@ -28,6 +28,7 @@ func (n *AttributeDecl) SetTreeDoc(doc *Document) {
 
 func newAttribute(name string, ns *Namespace) *Attribute {
 	attr := &Attribute{}
+	attr.etype = AttributeNode
 	attr.name = name
 	attr.ns = ns
 	return attr
diff --git a/element.go b/element.go
index a0af9ce..d53af35 100644
--- a/element.go
+++ b/element.go
@@ -101,6 +101,7 @@ func (n *Element) SetAttribute(name, value string) error {
 		return err
 	}
 
+	attr.SetParent(n)
 	p := n.properties
 	if p == nil {
 		n.properties = attr
-- 
2.43.0


From 947ffbae9e51b98d5aae54014ce30303f51a8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 16/83] fix: keep an internal subset that holds only comments
 or processing instructions

---
 dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index ac9e0c6..4c719b4 100644
--- a/dump.go
+++ b/dump.go
@@ -268,7 +268,7 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 		io.WriteString(out, " ")
 	}
 
-	if len(dtd.entities) == 0 && len(dtd.elements) == 0 && len(dtd.pentities) == 0 && len(dtd.attributes) == 0 {
+	if len(dtd.entities) == 0 && len(dtd.elements) == 0 && len(dtd.pentities) == 0 && len(dtd.attributes) == 0 && dtd.FirstChild() == nil {
 		/* (dtd.notations == NULL) && */
 		io.WriteString(out, ">")
 		return nil
-- 
2.43.0


From ce0b43a09c49d30cb86c5e49233ccb3dfd86094f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 17/83] fix: GetElementDesc never found a declared element

---
 dtd.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dtd.go b/dtd.go
index 8e15787..fb58097 100644
--- a/dtd.go
+++ b/dtd.go
@@ -170,8 +170,13 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 }
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
-	ret, ok := dtd.elements[name]
-	return ret, ok
+	// elements are registered under their local name and prefix
+	var prefix string
+	if i := strings.IndexByte(name, ':'); i > -1 {
+		prefix = name[:i]
+		name = name[i+1:]
+	}
+	return dtd.LookupElement(name, prefix)
 }
 
 func (dtd *DTD) AddChild(cur Node) error {
-- 
2.43.0


From cdc6df066a13c43433f2c92e9a5ba5ec7a5bef04 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 18/83] fix: redeclaring an entity must not replace the literal
 of the first declaration

---
 parserctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index a11dde6..359ff72 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3255,7 +3255,8 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			*/
 		}
 	}
-	if curent != nil {
+	// when this is a redeclaration, curent is the first declaration
+	if curent != nil && string(curent.Content()) == value {
 		curent.SetOrig(literal)
 	}
 
-- 
2.43.0


From b5333acef825e214c33212aeecc1442b0026d34d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 19/83] fix: attrNormalizeSpace panicked on a value made of
 spaces only

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 359ff72..545ebcb 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3614,7 +3614,7 @@ func (ctx *parserCtx) attrNormalizeSpace(s string) (value string) {
 		out = append(out, 0x20) // append a single space
 	}
 
-	if out[len(out)-1] == 0x20 {
+	if len(out) > 0 && out[len(out)-1] == 0x20 {
 		out = out[:len(out)-1]
 	}
 	value = string(out)
-- 
2.43.0


From 5aee0a91c3f6130b002f5cece03cbc068f553a5e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 20/83] fix: SAX2.Error wrapped its arguments in one more slice

---
 sax/gencbsax.pl | 2 +-
 sax/sax2.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sax/gencbsax.pl b/sax/gencbsax.pl
index 70ae3ee..6990813 100644
--- a/sax/gencbsax.pl
+++ b/sax/gencbsax.pl
@@ -79,7 +79,7 @@ foreach my $func (@handler_funcs) {
         join ", ",
             map { $_ eq "error" ? "ErrHandlerUnspecified" : $_ eq "bool" ? "false" : "nil" }
             split /\s*,\s*/, $ret =~ s{\(([^\)]+)\)}{$1}r;
-    my $bare_args = join ", ", map { (split /\s+/, $_)[0] } split /\s*,\s*/, $args;
+    my $bare_args = join ", ", map { my ($n, $t) = split /\s+/, $_; $t =~ /^\.\.\./ ? "$n..." : $n } split /\s*,\s*/, $args;
     print $out <<EOM
 func (s $klass) $func($args) $ret {
 \tif h := s.${func}Handler; h != nil {
diff --git a/sax/sax2.go b/sax/sax2.go
index 54f2d7b..3f3a61e 100644
--- a/sax/sax2.go
+++ b/sax/sax2.go
@@ -132,7 +132,7 @@ func (s SAX2) EntityDecl(ctx Context, name string, typ int, publicID string, sys
 
 func (s SAX2) Error(ctx Context, message string, args ...interface{}) error {
 	if h := s.ErrorHandler; h != nil {
-		return h(ctx, message, args)
+		return h(ctx, message, args...)
 	}
 	return ErrHandlerUnspecified;
 }
-- 
2.43.0


From af46bc00dd613aa8137810c1bad5023278b20d6b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 21/83] fix: a NUL character ended a name without an error and
 was skipped

---
 parserctx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 545ebcb..76d42fe 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1417,7 +1417,7 @@ func (ctx *parserCtx) parseEncodingName(_ rune) (string, error) {
 	buf.WriteRune(c)
 
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
+	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
 		if !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9') && c != '.' && c != '_' && c != '-' {
 			i--
 			break
@@ -1618,7 +1618,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 	buf.WriteRune(c)
 
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
+	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
 		if c == ' ' || c == '>' || c == '/' { /* accelerator */
 			i--
 			break
@@ -1797,7 +1797,7 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	// at this point we have at least 1 character name.
 	// see how much more we got here
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
+	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
 		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' && c != '-' && c != '.' {
 			i--
 			break
-- 
2.43.0


From b4e5abe3a45f81aaad00f61f735a2698bb561f0e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 22/83] fix: parseNmtoken never advanced, looping forever on an
 enumerated attribute type

---
 parserctx.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 76d42fe..caaecd3 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1747,12 +1747,14 @@ func (ctx *parserCtx) parseNmtoken() (string, error) {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	for c := cur.PeekN(i); c != 0x0; i++ {
-		if !isNameChar(c) {
-			break
-		}
+	for c := cur.PeekN(i); isNameChar(c); c = cur.PeekN(i) {
 		buf.WriteRune(c)
+		i++
+	}
+	if i == 1 {
+		return "", ctx.error(ErrNmtokenRequired)
 	}
+	cur.Advance(i - 1)
 
 	return buf.String(), nil
 }
-- 
2.43.0


From b5f90753f796d30fdaecb95e1fdc41ed75106312 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 23/83] fix: detect duplicate tokens in enumerated and NOTATION
 attribute types

---
 parserctx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index caaecd3..935b5d1 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3305,6 +3305,7 @@ func (ctx *parserCtx) parseNotationType() (Enumeration, error) {
 		if _, ok := names[name]; ok {
 			return nil, ctx.error(ErrDTDDupToken{Name: name})
 		}
+		names[name] = struct{}{}
 
 		enum = append(enum, name)
 		ctx.skipBlanks()
@@ -3350,6 +3351,7 @@ func (ctx *parserCtx) parseEnumerationType() (Enumeration, error) {
 		if _, ok := names[name]; ok {
 			return nil, ctx.error(ErrDTDDupToken{Name: name})
 		}
+		names[name] = struct{}{}
 
 		enum = append(enum, name)
 		ctx.skipBlanks()
-- 
2.43.0


From bdb328c22b987452a8e07d79252b378e6e7a3485 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 24/83] fix: an unterminated CDATA section looped forever, and
 accepted characters outside Char

---
 parserctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 935b5d1..bb02d27 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -601,9 +601,9 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 	}
 
 	i := 0
-	for c := cur.PeekN(i + 1); c != 0x0; c = cur.PeekN(i + 1) {
+	for c := cur.PeekN(i + 1); isChar(c); c = cur.PeekN(i + 1) {
 		if !cdata {
-			if c == '<' || c == '&' || !isChar(c) {
+			if c == '<' || c == '&' {
 				break
 			}
 		}
-- 
2.43.0


From abb596e7bd3b7a28b6af5acad83c5e35eef93158 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 25/83] fix: accept an empty CDATA section

---
 parserctx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index bb02d27..124fb43 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1941,8 +1941,10 @@ func (ctx *parserCtx) parseCDSect() error {
 	ctx.instate = psCDATA
 	defer func() { ctx.instate = psContent }()
 
-	if err := ctx.parseCharData(true); err != nil {
-		return ctx.error(err)
+	if !cur.HasPrefixString("]]>") {
+		if err := ctx.parseCharData(true); err != nil {
+			return ctx.error(err)
+		}
 	}
 
 	if !cur.ConsumeString("]]>") {
-- 
2.43.0


From 99dd6777d2d3a86a7b48270b0acc60209afa6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 26/83] fix: reject a comment that is not terminated by '-->'

---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 124fb43..5179c85 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1995,6 +1995,10 @@ func (ctx *parserCtx) parseComment() error {
 		i++
 	}
 
+	if q != '-' || r != '-' || cur.PeekN(i+1) != '>' {
+		return ctx.error(ErrInvalidComment)
+	}
+
 	// -2 for "-->" (note: '>' has not been consumed, so we use -2 instead of -3
 	buf.Truncate(buf.Len() - 2)
 	str := buf.Bytes()
-- 
2.43.0


From 26535a94a1e024a8ff756daa5f504fc72f9ae173 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 27/83] fix: normalise line breaks as XML 1.0 section 2.11
 requires

---
 parserctx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 5179c85..41c5b39 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -630,6 +630,7 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 
 	// XXX This is not right, but it's for now the best place to do this
 	str = strings.Replace(str, "\r\n", "\n", -1)
+	str = strings.Replace(str, "\r", "\n", -1)
 	if ctx.instate == psCDATA {
 		if s := ctx.sax; s != nil {
 			switch err := s.CDataBlock(ctx.userData, []byte(str)); err {
@@ -1560,7 +1561,8 @@ func (ctx *parserCtx) parsePI() error {
 	}
 
 	cur.Advance(i)
-	data := buf.String()
+	data := strings.Replace(buf.String(), "\r\n", "\n", -1)
+	data = strings.Replace(data, "\r", "\n", -1)
 
 	if !cur.ConsumeString("?>") {
 		return ctx.error(ErrInvalidProcessingInstruction)
@@ -2007,6 +2009,7 @@ func (ctx *parserCtx) parseComment() error {
 
 	if sh := ctx.sax; sh != nil {
 		str = bytes.Replace(str, []byte{'\r', '\n'}, []byte{'\n'}, -1)
+		str = bytes.Replace(str, []byte{'\r'}, []byte{'\n'}, -1)
 		switch err := sh.Comment(ctx, str); err {
 		case nil, sax.ErrHandlerUnspecified:
 			// no op
-- 
2.43.0


From a3fb46998a6d0087ea1f78cb9fc4913fbbd28f8b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 28/83] fix: a CR LF pair in an attribute value is one line
 break

---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 41c5b39..cbddae6 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1013,6 +1013,10 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 				}
 				inSpace = true
 			}
+			if c == 0xD && cur.PeekN(2) == 0xA {
+				// a line break is a single character (XML 1.0, 2.11)
+				cur.Advance(1)
+			}
 			cur.Advance(1)
 		default:
 			inSpace = false
-- 
2.43.0


From c9619c0a5e91f78d8c4c93f6f9f284d57fbb54ff Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 29/83] fix: report a missing '=' or quote of an attribute
 instead of guessing the value

---
 parserctx.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index cbddae6..a5e711b 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -923,9 +923,11 @@ func (ctx *parserCtx) parseAttributeValue(normalize bool) (value string, entitie
 		defer g.IRelease("END parseAttributeValue")
 	}
 
-	ctx.parseQuotedText(func(qch rune) (string, error) {
-		value, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
-		return "", nil
+	_, err = ctx.parseQuotedText(func(qch rune) (string, error) {
+		v, n, err := ctx.parseAttributeValueInternal(qch, normalize)
+		value = v
+		entities = n
+		return "", err
 	})
 	return
 }
@@ -1070,6 +1072,7 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 	if cur.Peek() != '=' {
 		err = ctx.error(ErrEqualSignRequired)
+		return
 	}
 	cur.Advance(1)
 	ctx.skipBlanks()
-- 
2.43.0


From 21b1bcf914de6b467a87a4f3495c06842ac5ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 30/83] fix: allow white space before the '>' of an end tag

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index a5e711b..cc29784 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -897,6 +897,7 @@ func (ctx *parserCtx) parseEndTag() error {
 			return ctx.error(errors.New("expected end tag '" + e.Name() + "'"))
 		}
 
+		ctx.skipBlanks()
 		if cur.Peek() != '>' {
 			return ctx.error(ErrGtRequired)
 		}
-- 
2.43.0


From b5e5e3951e0d1d1643988768fe9c5d17968deb0d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 31/83] fix: content starting with '/>' closed its element

---
 parserctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index cc29784..b510148 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -683,7 +683,9 @@ func (ctx *parserCtx) parseElement() error {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
+	// parseStartTag stops in front of the "/>" or ">" that ends the tag
 	if !cur.HasPrefixString("/>") {
+		cur.Advance(1)
 		if err := ctx.parseContent(); err != nil {
 			return ctx.error(err)
 		}
@@ -729,7 +731,6 @@ func (ctx *parserCtx) parseStartTag() error {
 	for ctx.instate != psEOF {
 		ctx.skipBlanks()
 		if cur.Peek() == '>' {
-			cur.Advance(1)
 			break
 		}
 
-- 
2.43.0


From 651f80734ed16df69706349604d717e5885b2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 32/83] fix: a default namespace declaration was also reported
 as an attribute

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index b510148..b4888b2 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -755,6 +755,7 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(ErrSpaceRequired)
 			}
 			ctx.skipBlanks()
+			continue
 		} else if aprefix == XMLNsPrefix {
 			var u *url.URL // predeclare, so we can use goto SkipNS
 
-- 
2.43.0


From 4e07231f447427890c43a52aa2fd169fd086bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 33/83] fix: require white space between attributes

---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index b4888b2..e844da3 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -815,6 +815,10 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 
 		attrs = append(attrs, attr)
+
+		if cur.Peek() != '>' && !cur.HasPrefixString("/>") && !isBlankCh(cur.Peek()) {
+			return ctx.error(ErrSpaceRequired)
+		}
 	}
 
 	// attributes defaulting
-- 
2.43.0


From 1d1e0287cd73451a77a7fb1bd86e500e20d94a6c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 34/83] fix: namespace declarations are scoped to their element
 and can be overridden

---
 dump.go             |  2 +-
 parser_interface.go |  1 +
 parserctx.go        | 15 ++++++++++++++-
 stack.go            | 14 +++++++++++++-
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/dump.go b/dump.go
index 4c719b4..8224ca4 100644
--- a/dump.go
+++ b/dump.go
@@ -595,7 +595,7 @@ func (d *Dumper) dumpNsList(out io.Writer, nslist []*Namespace) error {
 }
 
 func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
-	if ns.href == "" {
+	if ns.href == "" && ns.prefix != "" {
 		// no op
 		return nil
 	}
diff --git a/parser_interface.go b/parser_interface.go
index 9f36949..9bd35d2 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -141,6 +141,7 @@ type parserCtx struct {
 	elem              *Element // current context element
 
 	nsTab      nsStack
+	nsNrTab    []int // number of namespaces declared by each open element
 	doc        *Document
 	userData   interface{}
 	nodeTab    nodeStack
diff --git a/parserctx.go b/parserctx.go
index e844da3..3b9d0b4 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -91,6 +91,14 @@ func (ctx *parserCtx) fireSAXCallback(typ int, args ...interface{}) error {
 	return nil
 }
 
+// popNS drops the namespaces declared by the element being closed
+func (ctx *parserCtx) popNS() {
+	if l := len(ctx.nsNrTab); l > 0 {
+		ctx.nsTab.Pop(ctx.nsNrTab[l-1])
+		ctx.nsNrTab = ctx.nsNrTab[:l-1]
+	}
+}
+
 func (ctx *parserCtx) pushNode(e *Element) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START pushNode (%s)", e.Name())
@@ -744,6 +752,9 @@ func (ctx *parserCtx) parseStartTag() error {
 
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
+			if ctx.nsTab.Declared("", nbNs) {
+				return ctx.error(errors.New("duplicate attribute is not allowed"))
+			}
 			ctx.pushNS("", attvalue)
 			nbNs++
 			//    SkipDefaultNS:
@@ -787,7 +798,7 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
 			}
 
-			if ctx.nsTab.Lookup(attname) != "" {
+			if ctx.nsTab.Declared(attname, nbNs) {
 				return ctx.error(errors.New("duplicate attribute is not allowed"))
 			}
 			ctx.pushNS(attname, attvalue)
@@ -870,6 +881,7 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 	}
 	ctx.pushNode(elem)
+	ctx.nsNrTab = append(ctx.nsNrTab, nbNs)
 
 	return nil
 }
@@ -920,6 +932,7 @@ func (ctx *parserCtx) parseEndTag() error {
 		}
 	}
 	ctx.popNode()
+	ctx.popNS()
 
 	return nil
 }
diff --git a/stack.go b/stack.go
index 6d57cf8..8310bb7 100644
--- a/stack.go
+++ b/stack.go
@@ -37,8 +37,20 @@ func newNsStack() nsStack {
 	return nsStack{}
 }
 
+// Push binds prefix to uri. A binding hides the ones of the same
+// prefix that were pushed before it, until it is popped.
 func (s *nsStack) Push(prefix, uri string) {
-	s.UniqueStack.Push(nsStackItem{prefix: prefix, href: uri})
+	s.UniqueStack = append(s.UniqueStack, nsStackItem{prefix: prefix, href: uri})
+}
+
+// Declared tells if prefix is bound by one of the last n items
+func (s *nsStack) Declared(prefix string, n int) bool {
+	for _, item := range s.UniqueStack.Peek(n) {
+		if item.Key() == prefix {
+			return true
+		}
+	}
+	return false
 }
 
 func (s *nsStack) Lookup(prefix string) string {
-- 
2.43.0


From f8961472ffd89abfb85a9d0d5750282102b5926a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 35/83] fix: the xml prefix is always bound

---
 parserctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 3b9d0b4..f5622b8 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -148,6 +148,9 @@ func (ctx *parserCtx) popNode() (elem *Element) {
 }
 
 func (ctx *parserCtx) lookupNamespace(prefix string) string {
+	if prefix == XMLPrefix {
+		return XMLNamespace
+	}
 	return ctx.nsTab.Lookup(prefix)
 }
 
-- 
2.43.0


From da87f4894dc64a4023456a5cbf200b0a6b63f25b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 36/83] fix: default attributes came in random order, also when
 specified on the element

---
 parserctx.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index f5622b8..d16d0a9 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net/url"
+	"sort"
 	"strings"
 	"sync"
 	"unicode"
@@ -850,8 +851,19 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 		defaults, ok := ctx.lookupAttributeDefault(elemName)
 		if ok {
-			for _, attr := range defaults {
-				attrs = append(attrs, attr)
+			specified := map[string]struct{}{}
+			for _, attr := range attrs {
+				specified[attr.Name()] = struct{}{}
+			}
+			names := make([]string, 0, len(defaults))
+			for name := range defaults {
+				if _, ok := specified[name]; !ok {
+					names = append(names, name)
+				}
+			}
+			sort.Strings(names)
+			for _, name := range names {
+				attrs = append(attrs, defaults[name])
 			}
 		}
 	}
-- 
2.43.0


From edfbd0e2204878cd0fb25a70414bf55a1f60cbef Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 37/83] fix: a reference to an undeclared entity panicked

---
 parserctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index d16d0a9..19976a5 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4948,7 +4948,7 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	// declared is a well-formedness constraint only if
 	// standalone='yes'.
 	if ent == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && ctx.hasPERefs) {
+		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
 			return nil, ctx.error(ErrUndeclaredEntity)
 		} else {
 			if ctx.inSubset == 0 {
@@ -4995,7 +4995,7 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	}
 
 	if ent == nil {
-		panic("at the end of parseEntityRef, ent == nil")
+		return nil, ctx.error(ErrUndeclaredEntity)
 	}
 	// [ WFC: No Recursion ]
 	// A parsed entity must not contain a recursive reference
-- 
2.43.0


From 55a274d1aca998790de334c699035508c405eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 38/83] fix: entity lookup without a tree or with a foreign
 entity type panicked

---
 parserctx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 19976a5..b1b6ba3 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4559,11 +4559,15 @@ func parseStringName(s []byte) (string, int, error) {
 // the rest of the processing to work.
 func (ctx *parserCtx) getEntity(name string) (*Entity, error) {
 	if ctx.inSubset == 0 {
-		if ret, err := resolvePredefinedEntity(name); err != nil {
+		if ret, err := resolvePredefinedEntity(name); err == nil {
 			return ret, nil
 		}
 	}
 
+	if ctx.doc == nil {
+		return nil, ErrEntityNotFound
+	}
+
 	var ret *Entity
 	var ok bool
 	if ctx.doc == nil || ctx.doc.standalone != 1 {
@@ -4918,8 +4922,8 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 		// ask the SAX2 handler nicely
 		var loadedEnt sax.Entity
 		loadedEnt, err = s.GetEntity(ctx.userData, name)
-		if err == nil {
-			ent = loadedEnt.(*Entity)
+		if e, ok := loadedEnt.(*Entity); ok && e != nil && err == nil {
+			ent = e
 			return
 		}
 
-- 
2.43.0


From 092e4f0fa7c4fdc6f836ba77459c55304e29bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 39/83] fix: a character reference must end in ';' and must not
 wrap around

---
 parserctx.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index b1b6ba3..d8724d0 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4826,11 +4826,17 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 				err = errors.New("invalid hex CharRef")
 				return
 			}
+			if val > unicode.MaxRune {
+				err = ErrInvalidChar
+				return
+			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		if cur.Peek() != ';' {
+			err = ErrSemicolonRequired
+			return
 		}
+		cur.Advance(1)
 	} else if cur.ConsumeString("&#") {
 		for !cur.Done() && cur.Peek() != ';' {
 			c := cur.Peek()
@@ -4840,11 +4846,17 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 				err = errors.New("invalid decimal CharRef")
 				return
 			}
+			if val > unicode.MaxRune {
+				err = ErrInvalidChar
+				return
+			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		if cur.Peek() != ';' {
+			err = ErrSemicolonRequired
+			return
 		}
+		cur.Advance(1)
 	} else {
 		err = errors.New("invalid char ref")
 		return
-- 
2.43.0


From 6554ce6ae86e7d1d7136e46494e699427df93171 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 40/83] fix: parseStringCharRef panicked on an unterminated
 character reference

---
 parserctx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index d8724d0..b69ea77 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4482,7 +4482,7 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 	s = s[2:]
 
 	var accumulator func(int32, rune) (int32, error)
-	if s[0] == 'x' {
+	if len(s) > 0 && s[0] == 'x' {
 		s = s[1:]
 		width++
 		accumulator = accumulateHexCharRef
@@ -4490,8 +4490,8 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 		accumulator = accumulateDecimalCharRef
 	}
 
-	for c := s[0]; c != ';'; c = s[0] {
-		val, err = accumulator(val, rune(c))
+	for len(s) > 0 && s[0] != ';' {
+		val, err = accumulator(val, rune(s[0]))
 		if err != nil {
 			width = 0
 			return
@@ -4506,10 +4506,10 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 		width++
 	}
 
-	if s[0] == ';' {
-		s = s[1:]
-		width++
+	if len(s) == 0 {
+		return utf8.RuneError, 0, ErrSemicolonRequired
 	}
+	width++
 
 	r = rune(val)
 	if !isChar(val) {
-- 
2.43.0


From 4d2842a8bcc664e87580a353cb0150f175c8ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 41/83] fix: entity references inside literal values never
 resolved, and an undeclared one panicked

---
 parserctx.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index b69ea77..e850826 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3020,6 +3020,10 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 			if err := ctx.entityCheck(ent, width, 0); err != nil {
 				return "", err
 			}
+			if ent == nil {
+				s = s[width:]
+				continue
+			}
 			rep, err := ctx.decodeEntitiesInternal(ent.Content(), what, depth+1)
 			if err != nil {
 				return "", err
@@ -4631,7 +4635,8 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 		return nil, 0, errors.New("invalid entity ref")
 	}
 
-	i := 0
+	s = s[1:]
+	i := 1
 	name, width, err := parseStringName(s)
 	if err != nil {
 		return nil, 0, errors.New("failed to parse name")
@@ -4658,10 +4663,13 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 			// next, but that's only when XML_PARSE_OLDSAX is enabled.
 			// we won't do that.
 			if ctx.wellFormed && ctx.userData == ctx {
-				loadedEnt, err = ctx.getEntity(name)
+				ent, err := ctx.getEntity(name)
 				if err != nil {
 					return nil, 0, err
 				}
+				if ent != nil {
+					loadedEnt = ent
+				}
 			}
 		}
 	}
@@ -4687,10 +4695,8 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 	 * standalone='yes'.
 	 */
 	if loadedEnt == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
-			return nil, 0, fmt.Errorf("entity '%s' not defined", name)
-		}
 		// xmlParserEntityCheck ?!
+		return nil, 0, fmt.Errorf("entity '%s' not defined", name)
 	}
 
 	/*
@@ -4739,7 +4745,8 @@ func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error)
 		return nil, 0, errors.New("invalid PEreference")
 	}
 
-	i := 0
+	s = s[1:]
+	i := 1
 	name, width, err := parseStringName(s)
 	if err != nil {
 		return nil, 0, err
-- 
2.43.0


From 4e0820387e72d607b839cb1fbb2ee43177ef3331 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 42/83] fix: a malformed entity value was dropped without an
 error

---
 parserctx.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index e850826..ba0c680 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3057,6 +3057,9 @@ func (ctx *parserCtx) parseEntityValue() (string, string, error) {
 	literal, err := ctx.parseQuotedText(func(qch rune) (string, error) {
 		return ctx.parseEntityValueInternal(qch)
 	})
+	if err != nil {
+		return "", "", ctx.error(err)
+	}
 
 	val, err := ctx.decodeEntities([]byte(literal), SubstitutePERef)
 	if err != nil {
@@ -3145,14 +3148,15 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			if pdebug.Enabled {
 				pdebug.Printf("entity declaration '%s' -> '%s'", name, value)
 			}
+			if err != nil {
+				return ctx.error(err)
+			}
 
-			if err == nil {
-				switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
-				case nil, sax.ErrHandlerUnspecified:
-					// no op
-				default:
-					return ctx.error(err)
-				}
+			switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
+			case nil, sax.ErrHandlerUnspecified:
+				// no op
+			default:
+				return ctx.error(err)
 			}
 		} else {
 			if pdebug.Enabled {
@@ -3189,14 +3193,15 @@ func (ctx *parserCtx) parseEntityDecl() error {
 		}
 		if c := cur.Peek(); c == '"' || c == '\'' {
 			literal, value, err = ctx.parseEntityValue()
-			if err == nil {
-				if s := ctx.sax; s != nil {
-					switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
-					case nil, sax.ErrHandlerUnspecified:
-						// no op
-					default:
-						return ctx.error(err)
-					}
+			if err != nil {
+				return ctx.error(err)
+			}
+			if s := ctx.sax; s != nil {
+				switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
+				case nil, sax.ErrHandlerUnspecified:
+					// no op
+				default:
+					return ctx.error(err)
 				}
 			}
 		} else {
-- 
2.43.0


From d5d38c316c4298ffde118f2fc4f1b3bbd9b60880 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 43/83] fix: reject parameter entity references within
 declarations of the internal subset

---
 parserctx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index ba0c680..f70b517 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3061,6 +3061,11 @@ func (ctx *parserCtx) parseEntityValue() (string, string, error) {
 		return "", "", ctx.error(err)
 	}
 
+	// [ WFC: PEs in Internal Subset ]
+	if !ctx.external && ctx.inputTab.Len() == 1 && strings.IndexByte(literal, '%') > -1 {
+		return "", "", ctx.error(errors.New("parameter entity reference within a declaration of the internal subset"))
+	}
+
 	val, err := ctx.decodeEntities([]byte(literal), SubstitutePERef)
 	if err != nil {
 		return "", "", ctx.error(err)
-- 
2.43.0


From 2c083770be71872fbd4945a2b1bde7b0476b1cca Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 44/83] fix: reject character references outside Char in
 attribute values

---
 document.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/document.go b/document.go
index 109bdd3..7e9ab47 100644
--- a/document.go
+++ b/document.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"strings"
+	"unicode"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -382,6 +383,14 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 				if err != nil {
 					return
 				}
+				if charval > unicode.MaxRune {
+					err = ErrInvalidChar
+					return
+				}
+			}
+			if !isChar(charval) {
+				err = ErrInvalidChar
+				return
 			}
 		} else {
 			rdr.UnreadRune()
-- 
2.43.0


From a89941c325494dcc2242eb89e246a7a527328e96 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 45/83] fix: a self-referential entity in an attribute value
 overflowed the stack

---
 document.go  | 6 ++++++
 interface.go | 1 +
 2 files changed, 7 insertions(+)

diff --git a/document.go b/document.go
index 7e9ab47..7886692 100644
--- a/document.go
+++ b/document.go
@@ -450,8 +450,14 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 				// no children
 				if ok && ent.FirstChild() == nil {
 					// XXX WTF am I doing here...?
+					if ent.expanding {
+						err = errors.New("entity '" + val + "' references itself")
+						return
+					}
 					var refchildren Node
+					ent.expanding = true
 					refchildren, err = d.stringToNodeList(string(node.Content()))
+					ent.expanding = false
 					if err != nil {
 						return
 					}
diff --git a/interface.go b/interface.go
index 8c9fb1f..6e5bef6 100644
--- a/interface.go
+++ b/interface.go
@@ -326,6 +326,7 @@ type Entity struct {
 	systemID   string     // URI for a SYSTEM or PUBLIC entity
 	uri        string     // the full URI as computed
 	owner      bool       // does the entity own children
+	expanding  bool       // is the content being turned into nodes
 	checked    int        // was the entity content checked
 	/* this is also used to count entities
 	 * references done from that entity
-- 
2.43.0


From 83c4f9ce30acdd9da5e54358a2db7435c4014501 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 46/83] fix: a content model starting with a group lost that
 group

---
 parserctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index f70b517..996897b 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2718,7 +2718,8 @@ func (ctx *parserCtx) parseElementChildrenContentDeclPriv(depth int) (*ElementCo
 	if cur.Peek() == '(' {
 		cur.Advance(1)
 		ctx.skipBlanks()
-		retelem, err := ctx.parseElementChildrenContentDeclPriv(depth + 1)
+		var err error
+		retelem, err = ctx.parseElementChildrenContentDeclPriv(depth + 1)
 		if err != nil {
 			return nil, ctx.error(err)
 		}
-- 
2.43.0


From c7b32e7ccbb62c97efe92dc895687acb63979345 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 47/83] fix: accept '*' and '+' after a content model group

---
 parserctx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 996897b..aabb509 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2889,6 +2889,7 @@ LOOP:
 				curelem = curelem.c2
 			}
 		}
+		cur.Advance(1)
 	case '+':
 		if retelem.coccur == ElementContentOpt {
 			retelem.coccur = ElementContentMult
@@ -2917,6 +2918,7 @@ LOOP:
 		if found {
 			retelem.coccur = ElementContentMult
 		}
+		cur.Advance(1)
 	}
 
 	return retelem, nil
-- 
2.43.0


From 43ea2514e7ecb55b07943036d9a92145f97e583b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 48/83] fix: mixed content declarations with several names or
 white space were rejected, unfinished ones accepted

---
 parserctx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index aabb509..a320ee1 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2578,6 +2578,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	if !cur.ConsumeString("#PCDATA") {
 		return nil, ctx.error(ErrPCDATARequired)
 	}
+	ctx.skipBlanks()
 
 	if cur.Peek() == ')' {
 		/*
@@ -2631,7 +2632,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 			if err != nil {
 				return nil, ctx.error(err)
 			}
-			n.c1, err = ctx.doc.CreateElementContent("", ElementContentElement)
+			n.c1, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
 			if err != nil {
 				return nil, ctx.error(err)
 			}
@@ -2667,6 +2668,8 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 		                                    NULL, NULL);
 		   					}
 		*/
+	} else {
+		return nil, ctx.error(ErrElementContentNotFinished)
 	}
 	return retelem, nil
 }
-- 
2.43.0


From 2ed3e5d2d17d4396aa70a9be7333de16e0313f5d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 49/83] fix: an internal subset with an unknown declaration
 looped forever

---
 parserctx.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index a320ee1..7a55089 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2145,6 +2145,9 @@ func (ctx *parserCtx) parseInternalSubset() error {
 
 	for !cur.Done() && cur.Peek() != ']' {
 		ctx.skipBlanks()
+		if c := cur.Peek(); c != '<' && c != '%' && c != ']' {
+			return ctx.error(ErrDocTypeNotFinished)
+		}
 		if err := ctx.parseMarkupDecl(); err != nil {
 			return ctx.error(err)
 		}
@@ -2210,6 +2213,8 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 					if err := ctx.parseEntityDecl(); err != nil {
 						return ctx.error(err)
 					}
+				} else {
+					return ctx.error(ErrInvalidDTD)
 				}
 			case 'A': // <!A...
 				if err := ctx.parseAttributeListDecl(); err != nil {
@@ -2224,10 +2229,12 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 					return ctx.error(err)
 				}
 			default:
-				// no op: error detected later?
+				return ctx.error(ErrInvalidDTD)
 			}
 		} else if cur.PeekN(2) == '?' {
 			return ctx.parsePI()
+		} else {
+			return ctx.error(ErrInvalidDTD)
 		}
 	}
 
@@ -3910,7 +3917,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 		panic("did not get rune cursor")
 	}
 	if !cur.ConsumeString("<!ATTLIST") {
-		return nil
+		return ctx.error(ErrInvalidDTD)
 	}
 
 	if !isBlankCh(cur.Peek()) {
@@ -4007,7 +4014,7 @@ func (ctx *parserCtx) parseNotationDecl() error {
 		g := pdebug.IPrintf("START parseNotationDecl")
 		defer g.IRelease("END parseNotationDecl")
 	}
-	return nil
+	return ctx.error(ErrUnimplemented{target: "parseNotationDecl"})
 }
 
 func (ctx *parserCtx) parseExternalID() (string, string, error) {
-- 
2.43.0


From 829475f9510e85867316591479fdc8dd40239e29 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 50/83] fix: XML declaration: white space before '?>' and after
 the encoding, malformed encodings

---
 parserctx.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 7a55089..1283f80 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1228,21 +1228,31 @@ func (ctx *parserCtx) parseXMLDecl() error {
 		// otherwise, we just saw something unexpected
 		return ctx.error(ErrSpaceRequired)
 	}
+	ctx.skipBlankBytes(cur)
+	if cur.Peek() == '?' && cur.PeekN(2) == '>' {
+		cur.Advance(2)
+		return nil
+	}
 
 	// we *may* have encoding decl
-	v, err = ctx.parseEncodingDecl()
-	if err == nil {
+	if cur.HasPrefix(encodingBytes) {
+		v, err = ctx.parseEncodingDecl()
+		if err != nil {
+			return ctx.error(err)
+		}
 		// ctx.encoding contains the explicit encoding specified
 		ctx.encoding = v
 
 		// if the encoding decl is found, then we *could* have
 		// the end of the XML declaration
+		blank := ctx.skipBlankBytes(cur)
 		if cur.Peek() == '?' && cur.PeekN(2) == '>' {
 			cur.Advance(2)
 			return nil
 		}
-	} else if _, ok := err.(ErrAttrNotFound); ok {
-		return ctx.error(err)
+		if !blank {
+			return ctx.error(ErrSpaceRequired)
+		}
 	}
 
 	vb, err := ctx.parseStandaloneDecl()
@@ -1251,6 +1261,7 @@ func (ctx *parserCtx) parseXMLDecl() error {
 	}
 	ctx.standalone = vb
 
+	ctx.skipBlankBytes(cur)
 	if cur.Peek() == '?' && cur.PeekN(2) == '>' {
 		cur.Advance(2)
 		return nil
-- 
2.43.0


From 2e662753e52d8cc47ff0314efababbc315fad88b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 51/83] fix: the text of an entity used in content was
 rejected, trailing end tags were accepted

---
 parserctx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 1283f80..43d7aa4 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4098,11 +4098,16 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		return nil, ctx.error(err)
 	}
 	newctx.pushNode(newRoot)
+	newctx.elem = newRoot
+	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
 	newctx.doc.AddChild(newRoot)
 	newctx.switchEncoding()
 	if err := newctx.parseContent(); err != nil {
 		return nil, err
 	}
+	if !newctx.getCursor().Done() {
+		return nil, ctx.error(ErrDocumentEnd)
+	}
 
 	if child := newctx.doc.FirstChild(); child != nil {
 		if grandchild := child.FirstChild(); grandchild != nil {
-- 
2.43.0


From 8e5a4749c3e7a1234742d79118f88665f2738df9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 52/83] fix: option constants shared bits

---
 interface.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interface.go b/interface.go
index 6e5bef6..591d42a 100644
--- a/interface.go
+++ b/interface.go
@@ -12,7 +12,7 @@ const (
 type LoadSubsetOption int
 
 const (
-	DetectIDs LoadSubsetOption = 1<<iota+1
+	DetectIDs LoadSubsetOption = 1 << (iota + 1)
 	CompleteAttrs
 	SkipIDs
 )
@@ -31,7 +31,7 @@ const (
 	ParsePedantic                          /* pedantic error reporting */
 	ParseNoBlanks                          /* remove blank nodes */
 	// gap here: ParseSAX1 is not implemented
-	ParseXInclude   ParseOption = 1<<iota + 10 /* Implement XInclude substitition  */
+	ParseXInclude   ParseOption = 1 << (iota + 1) /* Implement XInclude substitition  */
 	ParseNoNet                                 /* Forbid network access */
 	ParseNoDict                                /* Do not reuse the context dictionnary */
 	ParseNsClean                               /* remove redundant namespaces declarations */
@@ -39,10 +39,10 @@ const (
 	ParseNoXIncNode                            /* do not generate XINCLUDE START/END nodes */
 	ParseCompact                               /* compact small text nodes; no modification of the tree allowed afterwards (will possibly crash if you try to modify the tree) */
 	// ParseOld10 is not implemented
-	ParseNoBaseFix /* do not fixup XINCLUDE xml:base uris */
+	ParseNoBaseFix ParseOption = 1 << (iota + 2) /* do not fixup XINCLUDE xml:base uris */
 	ParseHuge      /* relax any hardcoded limit from the parser */
 	// ParseOldSAX is not implemented
-	ParseIgnoreEnc ParseOption = 1<<iota + 21 /* ignore internal document encoding hint */
+	ParseIgnoreEnc ParseOption = 1 << (iota + 3) /* ignore internal document encoding hint */
 	ParseBigLines  ParseOption = 1 << 22      /* Store big lines numbers in text PSVI field */
 )
 
-- 
2.43.0


From 46ec1e1359509f040d2fc99be7dcc0d245f6750a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 53/83] fix: encoding koi8u could not be loaded

---
 encoding/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 9bce45e..eab199f 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -62,7 +62,7 @@ func Load(name string) enc.Encoding {
 		return charmap.ISO8859_8
 	case "koi8r":
 		return charmap.KOI8R
-	case "koir8u":
+	case "koi8u", "koir8u":
 		return charmap.KOI8U
 	case "macintosh":
 		return charmap.Macintosh
-- 
2.43.0


From bdac09007cadf53d85879a5354e9eee8d3363be2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 54/83] fix: deeply nested elements crashed the process with a
 stack overflow

---
 parserctx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 43d7aa4..8519968 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -675,6 +675,9 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 	return nil
 }
 
+// maxElementDepth is how many elements can be open at the same time
+const maxElementDepth = 10000
+
 func (ctx *parserCtx) parseElement() error {
 	if pdebug.Enabled {
 		ctx.elemidx++
@@ -683,6 +686,12 @@ func (ctx *parserCtx) parseElement() error {
 		defer g.IRelease("END parseElement (%d)", i)
 	}
 
+	// the parser recurses for every open element, and a goroutine that
+	// exhausts its stack takes the whole process down
+	if ctx.nodeTab.Len() >= maxElementDepth {
+		return ctx.error(errors.New("excessive depth in document"))
+	}
+
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
-- 
2.43.0


From b6ee9dbecc17768ff3809ed5dd7862ca48b9a995 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 55/83] fix: an entity declared without a value was accepted

---
 parserctx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 8519968..75fc93f 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3204,6 +3204,9 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			if err != nil {
 				return ctx.error(ErrValueRequired)
 			}
+			if literal == "" && uri == "" {
+				return ctx.error(ErrValueRequired)
+			}
 
 			if uri != "" {
 				u, err := url.Parse(uri)
@@ -3247,6 +3250,9 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			if err != nil {
 				return ctx.error(ErrValueRequired)
 			}
+			if literal == "" && uri == "" {
+				return ctx.error(ErrValueRequired)
+			}
 
 			if uri != "" {
 				u, err := url.Parse(uri)
-- 
2.43.0


From 65ae627f8a09fa98e18df889a6dc418579f711e5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 56/83] fix: a text node reading "textnoenc" crashed
 serialisation

---
 dump.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dump.go b/dump.go
index 8224ca4..586011d 100644
--- a/dump.go
+++ b/dump.go
@@ -652,12 +652,7 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		io.WriteString(out, ";")
 		return nil
 	case TextNode:
-		c := n.Content()
-		if string(c) == XMLTextNoEnc {
-			panic("unimplemented")
-		} else {
-			escapeText(out, c, false)
-		}
+		escapeText(out, n.Content(), false)
 		return nil // no recursing down
 	case ElementDeclNode:
 		if err = d.dumpElementDecl(out, n.(*ElementDecl)); err != nil {
-- 
2.43.0


From 6c7a4158ad565a51a11c3cdef6694a967b1fe21d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 57/83] fix: asking an attribute without namespace for its
 prefix crashed

---
 attr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/attr.go b/attr.go
index 7ae650e..2f4bf69 100644
--- a/attr.go
+++ b/attr.go
@@ -77,9 +77,15 @@ func (n Attribute) Value() string {
 }
 
 func (n Attribute) Prefix() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.Prefix()
 }
 
 func (n Attribute) URI() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.URI()
 }
-- 
2.43.0


From c8d9d8e6bed9d44670e0c7081462520af5d1a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 58/83] fix: namespace names were compared undecoded and
 written unescaped

---
 dump.go      | 7 +++++--
 parserctx.go | 8 ++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dump.go b/dump.go
index 586011d..8052d7d 100644
--- a/dump.go
+++ b/dump.go
@@ -608,8 +608,11 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 		io.WriteString(out, "xmlns:")
 		io.WriteString(out, ns.prefix)
 	}
-	io.WriteString(out, "=")
-	dumpQuotedString(out, ns.href)
+	io.WriteString(out, `="`)
+	if err := escapeAttrValue(out, []byte(ns.href)); err != nil {
+		return err
+	}
+	io.WriteString(out, `"`)
 	return nil
 }
 
diff --git a/parserctx.go b/parserctx.go
index 75fc93f..bf4f975 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -763,6 +763,14 @@ func (ctx *parserCtx) parseStartTag() error {
 			return ctx.error(err)
 		}
 
+		if aprefix == XMLNsPrefix || (attname == XMLNsPrefix && aprefix == "") {
+			// a namespace name is compared and stored as a plain string
+			attvalue, err = ctx.decodeEntities([]byte(attvalue), SubstituteRef)
+			if err != nil {
+				return ctx.error(err)
+			}
+		}
+
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
 			if ctx.nsTab.Declared("", nbNs) {
-- 
2.43.0


From 9e5f83b19aa192759f1c58af70392b7716efe18b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 59/83] fix: an empty entity was replaced by its own name

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index bf4f975..9d27fbc 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3049,7 +3049,7 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 				}
 
 				out.WriteString(rep)
-			} else {
+			} else if EntityType(ent.EntityType()) != InternalGeneralEntity {
 				out.WriteString(ent.Name())
 			}
 			s = s[width:]
-- 
2.43.0


From 6189288b8b417fff3db89d426e59aca64b0bf2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 60/83] fix: a processing instruction target that is 'xml' in
 any case is reserved

---
 parserctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 9d27fbc..9212700 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1899,7 +1899,8 @@ func (ctx *parserCtx) parsePITarget() (string, error) {
 		return "", ctx.error(err)
 	}
 
-	if name == "xml" {
+	// [17] PITarget ::= Name - (('X' | 'x') ('M' | 'm') ('L' | 'l'))
+	if strings.EqualFold(name, "xml") {
 		return "", errors.New("XML declaration allowed only at the start of the document")
 	}
 
-- 
2.43.0


From 39b4a2925716a6fe5ab77cab71786966878ceef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 61/83] fix: names follow the XML 1.0 productions, a local part
 does not start with a colon

---
 parserctx.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 9212700..51fc389 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1683,7 +1683,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 
 	// first letter
 	c := cur.Peek()
-	if c == ' ' || c == '>' || c == '/' || /* accelerators */ (!unicode.IsLetter(c) && c != '_' && c != ':') {
+	if c == ' ' || c == '>' || c == '/' || /* accelerators */ !isNameStartChar(c) {
 		err = ctx.error(fmt.Errorf("invalid first letter '%c'", c))
 		return
 	}
@@ -1695,7 +1695,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 			i--
 			break
 		}
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '.' && c != '-' && c != '_' && c != ':' /* && !isCombining(c) && !isExtender(c) */ {
+		if !isNameChar(c) {
 			i--
 			break
 		}
@@ -1786,14 +1786,28 @@ func (ctx *parserCtx) parseQName() (local string, prefix string, err error) {
 	return
 }
 
+// [4] NameStartChar. utf8.RuneError is not accepted because it also stands
+// for the end of the input
 func isNameStartChar(r rune) bool {
-	return unicode.IsLetter(r) || r == '_' || r == ':'
+	if r < 0x80 {
+		return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || r == '_' || r == ':'
+	}
+	if r == utf8.RuneError {
+		return false
+	}
+	return 0xc0 <= r && r <= 0xd6 || 0xd8 <= r && r <= 0xf6 ||
+		0xf8 <= r && r <= 0x2ff || 0x370 <= r && r <= 0x37d ||
+		0x37f <= r && r <= 0x1fff || 0x200c <= r && r <= 0x200d ||
+		0x2070 <= r && r <= 0x218f || 0x2c00 <= r && r <= 0x2fef ||
+		0x3001 <= r && r <= 0xd7ff || 0xf900 <= r && r <= 0xfdcf ||
+		0xfdf0 <= r && r <= 0xfffd || 0x10000 <= r && r <= 0xeffff
 }
 
+// [4a] NameChar
 func isNameChar(r rune) bool {
-	return r == '.' || r == '-' || r == '_' || r == ':' ||
-		unicode.IsLetter(r) || unicode.IsDigit(r) ||
-		unicode.In(r, unicode.Extender)
+	return isNameStartChar(r) ||
+		r == '-' || r == '.' || '0' <= r && r <= '9' || r == 0xb7 ||
+		0x300 <= r && r <= 0x36f || 0x203f <= r && r <= 0x2040
 }
 
 /**
@@ -1862,7 +1876,7 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	defer releaseBuffer(buf)
 
 	var c rune
-	if c = cur.Peek(); c == ' ' || c == '>' || c == '/' || !isNameStartChar(c) {
+	if c = cur.Peek(); c == ' ' || c == '>' || c == '/' || c == ':' || !isNameStartChar(c) {
 		err = ctx.error(errors.New("invalid name start char"))
 		return
 	}
@@ -1872,7 +1886,7 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	// see how much more we got here
 	i := 2
 	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' && c != '-' && c != '.' {
+		if c == ':' || !isNameChar(c) {
 			i--
 			break
 		}
-- 
2.43.0


From 5455cce34ca59867dc2fa8306a1b9e28ebb67cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 62/83] fix: a write error while serialising was not reported

---
 dump.go | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/dump.go b/dump.go
index 8052d7d..bceebaf 100644
--- a/dump.go
+++ b/dump.go
@@ -203,18 +203,42 @@ func (d *Dumper) writeString(out io.Writer, content string) error {
 	return err
 }
 
+// errWriter remembers the first error of the underlying writer and writes
+// nothing more after it
+type errWriter struct {
+	out io.Writer
+	err error
+}
+
+func (w *errWriter) Write(b []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, err := w.out.Write(b)
+	w.err = err
+	return n, err
+}
+
 func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
+	w := &errWriter{out: out}
+	if err := d.dumpDoc(w, doc); err != nil {
+		return err
+	}
+	return w.err
+}
+
+func (d *Dumper) dumpDoc(out io.Writer, doc *Document) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START Dumper.DumpDoc")
 		defer g.IRelease("END Dumper.DumpDoc")
 	}
 
-	if err := d.DumpNode(out, doc); err != nil {
+	if err := d.dumpNode(out, doc); err != nil {
 		return err
 	}
 
 	for e := doc.FirstChild(); e != nil; e = e.NextSibling() {
-		if err := d.DumpNode(out, e); err != nil {
+		if err := d.dumpNode(out, e); err != nil {
 			return err
 		}
 		io.WriteString(out, "\n")
@@ -277,7 +301,7 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 	io.WriteString(out, "[\n")
 
 	for e := dtd.FirstChild(); e != nil; e = e.NextSibling() {
-		if err := d.DumpNode(out, e); err != nil {
+		if err := d.dumpNode(out, e); err != nil {
 			return err
 		}
 	}
@@ -617,6 +641,14 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 }
 
 func (d *Dumper) DumpNode(out io.Writer, n Node) error {
+	w := &errWriter{out: out}
+	if err := d.dumpNode(w, n); err != nil {
+		return err
+	}
+	return w.err
+}
+
+func (d *Dumper) dumpNode(out io.Writer, n Node) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START Dumper.DumpNode '%s'", n.Name())
 		defer g.IRelease("END Dumper.DumpNode")
@@ -716,7 +748,7 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 				if achld.Type() == TextNode {
 					escapeAttrValue(out, achld.Content())
 				} else {
-					d.DumpNode(out, achld)
+					d.dumpNode(out, achld)
 				}
 			}
 			io.WriteString(out, `"`)
@@ -738,7 +770,7 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 
 	if child := n.FirstChild(); child != nil {
 		for ; child != nil; child = child.NextSibling() {
-			if err := d.DumpNode(out, child); err != nil {
+			if err := d.dumpNode(out, child); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From b2d3a82ec6d4ab8bf9cff5167989da390c6e11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 63/83] fix: default values of attributes: empty ones were not
 written, some characters were written unescaped

---
 dump.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dump.go b/dump.go
index bceebaf..9590557 100644
--- a/dump.go
+++ b/dump.go
@@ -601,9 +601,16 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		return errors.New("invalid AttributeDecl default value type")
 	}
 
-	if n.defvalue != "" {
+	// a declaration without a keyword has a default value, which may be empty
+	if n.defvalue != "" || n.def == AttrDefaultNone || n.def == AttrDefaultFixed {
 		io.WriteString(out, " ")
-		dumpQuotedString(out, n.defvalue)
+		// these came from character references, and would be an error or
+		// become a space if they were read literally
+		v := strings.Replace(n.defvalue, "<", "&lt;", -1)
+		v = strings.Replace(v, "\t", "&#9;", -1)
+		v = strings.Replace(v, "\n", "&#10;", -1)
+		v = strings.Replace(v, "\r", "&#13;", -1)
+		dumpQuotedString(out, v)
 	}
 	io.WriteString(out, ">\n")
 	return nil
-- 
2.43.0


From 208de0c9e4269f7fc37f318e1b5231de5a9835f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 64/83] fix: iso-8859-1 was decoded as windows-1252

---
 encoding/encoding.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index eab199f..a3fe32a 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -72,7 +72,9 @@ func Load(name string) enc.Encoding {
 		return charmap.Windows1250
 	case "windows1251":
 		return charmap.Windows1251
-	case "iso-8859-1", "windows1252":
+	case "iso-8859-1":
+		return charmap.ISO8859_1
+	case "windows1252":
 		return charmap.Windows1252
 	case "windows1253":
 		return charmap.Windows1253
-- 
2.43.0


From e6fcaaf954efcce8c65ce4079884c78d5c6dbccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 65/83] fix: '?' or '+' after a group of one item replaced the
 '*' of the item

---
 parserctx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 51fc389..51551db 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2916,7 +2916,8 @@ LOOP:
 	case '?':
 		// XXX why would ret be null?
 		if retelem != nil {
-			if retelem.coccur == ElementContentPlus {
+			// (a*)? == (a+)? == a*
+			if retelem.coccur == ElementContentPlus || retelem.coccur == ElementContentMult {
 				retelem.coccur = ElementContentMult
 			} else {
 				retelem.coccur = ElementContentOpt
@@ -2944,7 +2945,8 @@ LOOP:
 		}
 		cur.Advance(1)
 	case '+':
-		if retelem.coccur == ElementContentOpt {
+		// (a*)+ == (a?)+ == a*
+		if retelem.coccur == ElementContentOpt || retelem.coccur == ElementContentMult {
 			retelem.coccur = ElementContentMult
 		} else {
 			retelem.coccur = ElementContentPlus
-- 
2.43.0


From 52e520347c0d82b55620eac523c56468ec63cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 66/83] fix: a default value that is empty was not supplied

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 51551db..9f3ddd7 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4037,7 +4037,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 			}
 		}
 
-		if defvalue != "" && def != AttrDefaultImplied && def != AttrDefaultRequired {
+		if def != AttrDefaultImplied && def != AttrDefaultRequired {
 			ctx.addAttributeDefault(elemName, attrName, defvalue)
 		}
 
-- 
2.43.0


From e0deba7fa62fd340e5c8dbc8d94365a654b2b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 67/83] fix: redeclaring an attribute changed how its values
 are normalised

---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 9f3ddd7..6acbae6 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3779,6 +3779,10 @@ func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ Attribu
 		g := pdebug.IPrintf("START addSpecialAttribute(%s, %d)", key, typ)
 		defer g.IRelease("END addSpecialAttribute")
 	}
+	// the first declaration of an attribute is binding
+	if _, ok := ctx.attsSpecial[key]; ok {
+		return
+	}
 	ctx.attsSpecial[key] = typ
 }
 
-- 
2.43.0


From 65bd1fb6d6fb109974cca19d3978e6358a952367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 68/83] fix: attribute b:c of element a was confused with
 attribute c of element a:b

---
 parserctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 6acbae6..df6a7b4 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3774,7 +3774,7 @@ func (ctx *parserCtx) cleanSpecialAttributes() {
 }
 
 func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ AttributeType) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START addSpecialAttribute(%s, %d)", key, typ)
 		defer g.IRelease("END addSpecialAttribute")
@@ -3787,7 +3787,7 @@ func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ Attribu
 }
 
 func (ctx *parserCtx) lookupSpecialAttribute(elemName, attrName string) (AttributeType, bool) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START lookupSpecialAttribute(%s)", key)
 		defer g.IRelease("END lookupSpecialAttribute")
-- 
2.43.0


From c06d86de0ef0f03d7c8a45fcc33a1c7752a427df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 69/83] fix: a second declaration of an attribute made the
 document an error

---
 parserctx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index df6a7b4..9336b42 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3837,6 +3837,12 @@ func (ctx *parserCtx) addAttributeDecl(dtd *DTD, elem string, name string, prefi
 		}
 	}
 
+	// when an attribute is declared more than once, the first declaration
+	// is binding and the later ones are ignored
+	if decl, ok := dtd.LookupAttribute(name, prefix, elem); ok {
+		return decl, nil
+	}
+
 	attr = newAttributeDecl()
 	attr.atype = atype
 	attr.doc = dtd.doc
-- 
2.43.0


From d9582aeede0523105ad345f614b91dc9fc31d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 70/83] fix: look up the declared type of an attribute by its
 qualified name

---
 parserctx.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 9336b42..1c469c7 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -747,6 +747,11 @@ func (ctx *parserCtx) parseStartTag() error {
 		return ctx.error(err)
 	}
 
+	elemName := local
+	if prefix != "" {
+		elemName = prefix + ":" + local
+	}
+
 	nbNs := 0
 	attrs := []sax.Attribute{}
 	for ctx.instate != psEOF {
@@ -758,7 +763,7 @@ func (ctx *parserCtx) parseStartTag() error {
 		if cur.Peek() == '/' && cur.PeekN(2) == '>' {
 			break
 		}
-		attname, aprefix, attvalue, err := ctx.parseAttribute(local)
+		attname, aprefix, attvalue, err := ctx.parseAttribute(elemName)
 		if err != nil {
 			return ctx.error(err)
 		}
@@ -856,13 +861,6 @@ func (ctx *parserCtx) parseStartTag() error {
 	// attributes defaulting
 	// XXX Punting a lot of stuff here. See xmlParseStartTag2
 	if len(ctx.attsDefault) > 0 {
-		var elemName string
-		if prefix != "" {
-			elemName = prefix + ":" + local
-		} else {
-			elemName = local
-		}
-
 		if pdebug.Enabled {
 			pdebug.Printf("-------> %s", elemName)
 		}
@@ -1108,10 +1106,16 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 		return
 	}
 
+	// declarations are recorded under the qualified names
+	attrName := l
+	if p != "" {
+		attrName = p + ":" + l
+	}
+
 	normalize := false
-	attType, ok := ctx.lookupSpecialAttribute(elemName, l)
+	attType, ok := ctx.lookupSpecialAttribute(elemName, attrName)
 	if pdebug.Enabled {
-		pdebug.Printf("looked up attribute %s:%s -> %d (%t)", elemName, l, attType, ok)
+		pdebug.Printf("looked up attribute %s:%s -> %d (%t)", elemName, attrName, attType, ok)
 	}
 	if ok && attType != AttrInvalid {
 		normalize = true
-- 
2.43.0


From f29fba054bd5825c784cc11a91aa2269432ca694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 71/83] fix: accept an attribute list declaration without
 definitions

---
 parserctx.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 1c469c7..5bcb4e6 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4059,17 +4059,17 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 		// as we only support SAX2, we just register it regardless
 		ctx.addSpecialAttribute(elemName, attrName, typ)
 
-		if cur.Peek() == '>' {
-			/*
-			           if (input != ctxt->input) {
-			               xmlValidityError(ctxt, XML_ERR_ENTITY_BOUNDARY,
-			   "Attribute list declaration doesn't start and stop in the same entity\n",
-			                                NULL, NULL);
-			           }
-			*/
-			cur.Advance(1)
-			break
-		}
+	}
+
+	/*
+	           if (input != ctxt->input) {
+	               xmlValidityError(ctxt, XML_ERR_ENTITY_BOUNDARY,
+	   "Attribute list declaration doesn't start and stop in the same entity\n",
+	                                NULL, NULL);
+	           }
+	*/
+	if cur.Peek() == '>' {
+		cur.Advance(1)
 	}
 	return nil
 }
-- 
2.43.0


From 55f12353fec91ecb7aa1a73a31f098df5bf86266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 72/83] fix: resolve references inside entities in the value of
 an attribute

---
 attr.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/attr.go b/attr.go
index 2f4bf69..264b14f 100644
--- a/attr.go
+++ b/attr.go
@@ -1,5 +1,7 @@
 package helium
 
+import "bytes"
+
 func newAttributeDecl() *AttributeDecl {
 	attr := &AttributeDecl{}
 	attr.etype = AttributeDeclNode
@@ -72,6 +74,31 @@ func (n *Attribute) IsDefault() bool {
 	return n.defaultAttr
 }
 
+// Content returns the value of the attribute. Unlike in the content of an
+// element, entity references are resolved here, and so are the references in
+// the text of the entities.
+func (n Attribute) Content() []byte {
+	b := bytes.Buffer{}
+	writeExpanded(&b, n.firstChild)
+	return b.Bytes()
+}
+
+func writeExpanded(b *bytes.Buffer, n Node) {
+	for ; n != nil; n = n.NextSibling() {
+		if ref, ok := n.(*EntityRef); ok {
+			if ent, ok := ref.firstChild.(*Entity); ok {
+				writeExpanded(b, ent.firstChild)
+				continue
+			}
+			if ent, err := resolvePredefinedEntity(ref.name); err == nil {
+				b.WriteString(ent.content)
+				continue
+			}
+		}
+		b.Write(n.Content())
+	}
+}
+
 func (n Attribute) Value() string {
 	return string(n.Content())
 }
-- 
2.43.0


From a25469e0d436e72a75ad935c008a12db0af732bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 73/83] fix: set the last child of an entity whose text is
 turned into nodes

---
 document.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document.go b/document.go
index 7886692..f48aa3b 100644
--- a/document.go
+++ b/document.go
@@ -467,6 +467,7 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 						if x := n.NextSibling(); x != nil {
 							n = x
 						} else {
+							ent.setLastChild(n)
 							n = nil
 						}
 					}
-- 
2.43.0


From 9d2ea5d875f0b9966679f926c6114d8ab3d5c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 74/83] fix: report the qualified name of a defaulted attribute

---
 attr.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/attr.go b/attr.go
index 264b14f..2c89149 100644
--- a/attr.go
+++ b/attr.go
@@ -103,6 +103,14 @@ func (n Attribute) Value() string {
 	return string(n.Content())
 }
 
+// Name returns the qualified name
+func (n Attribute) Name() string {
+	if prefix := n.Prefix(); prefix != "" {
+		return prefix + ":" + n.name
+	}
+	return n.name
+}
+
 func (n Attribute) Prefix() string {
 	if n.ns == nil {
 		return ""
-- 
2.43.0


From d4cef1a431014afa4cb739079232bf261280f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 75/83] fix: normalise every alternative of a choice repeated
 by '+'

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index 5bcb4e6..8c4e898 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2962,6 +2962,7 @@ LOOP:
 		 * (a | b?)+ == (a | b)*
 		 */
 		found := false
+		curelem = retelem
 		for curelem != nil && curelem.ctype == ElementContentOr {
 			if curelem.c1 != nil && (curelem.c1.coccur == ElementContentOpt || curelem.c1.coccur == ElementContentMult) {
 				curelem.c1.coccur = ElementContentOnce
-- 
2.43.0


From d3520b01769dea9cecdc459274a88cb6d8b4fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 76/83] fix: check the entities referenced in attribute values,
 also indirectly

An undeclared entity, one whose text contains '<' and one that refers to
itself were accepted when they were reached through another entity, or
from the default value of an attribute.
---
 parserctx.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 8c4e898..76baeb1 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1053,6 +1053,11 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 						}
 					}
 				} else {
+					err = ctx.checkAttributeEntity(ent, map[string]bool{})
+					if err != nil {
+						err = ctx.error(err)
+						return
+					}
 					b.WriteString("&")
 					b.WriteString(ent.name)
 					b.WriteString(";")
@@ -1092,6 +1097,55 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 	return
 }
 
+// checkAttributeEntity checks the replacement text of an entity that is
+// referenced in an attribute value, along with the entities that are
+// referenced from it. visited tells if an entity is being checked (false),
+// or if that has already been done (true).
+//
+// [ WFC: Entity Declared ], [ WFC: No Recursion ], [ WFC: No < in Attribute Values ]
+func (ctx *parserCtx) checkAttributeEntity(ent sax.Entity, visited map[string]bool) error {
+	name := ent.Name()
+	if done, ok := visited[name]; ok {
+		if !done {
+			return errors.New("entity '" + name + "' references itself")
+		}
+		return nil
+	}
+	visited[name] = false
+
+	for s := ent.Content(); len(s) > 0; {
+		switch {
+		case s[0] == '<':
+			return errors.New("'<' in entity '" + name + "' is not allowed in attribute values")
+		case bytes.HasPrefix(s, []byte{'&', '#'}):
+			_, width, err := parseStringCharRef(s)
+			if err != nil {
+				return err
+			}
+			s = s[width:]
+		case s[0] == '&':
+			if n, width, err := parseStringName(s[1:]); err == nil {
+				if _, err := resolvePredefinedEntity(n); err == nil && bytes.HasPrefix(s[1+width:], []byte{';'}) {
+					s = s[width+2:]
+					continue
+				}
+			}
+			child, width, err := ctx.parseStringEntityRef(s)
+			if err != nil {
+				return err
+			}
+			if err := ctx.checkAttributeEntity(child, visited); err != nil {
+				return err
+			}
+			s = s[width:]
+		default:
+			s = s[1:]
+		}
+	}
+	visited[name] = true
+	return nil
+}
+
 func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix string, value string, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseAttribute")
-- 
2.43.0


From 6fffac63581544fd4160bc0c583219167f10912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 77/83] fix: do not deliver an unterminated CDATA section

The handler received everything up to the end of the input as a complete
CDATA block before the missing ]]> was noticed.
---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 76baeb1..fe75e30 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -638,6 +638,10 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 	}
 
 	cur.Advance(i)
+	if cdata && !cur.HasPrefixString("]]>") {
+		// do not pass on a section that is cut off
+		return ctx.error(ErrCDATANotFinished)
+	}
 	str := buf.String()
 
 	// XXX This is not right, but it's for now the best place to do this
-- 
2.43.0


From 7ba782db58f4d839c7fe9c1d0d9244a5718f04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 78/83] fix: the reserved namespace names cannot be bound to
 other prefixes

Namespaces in XML 1.0, section 3: no other prefix may be bound to the xml
or the xmlns namespace name, and neither can be the default namespace.
Only the combination of a prefix and the xmlns namespace name was rejected.
---
 parserctx.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index fe75e30..4d79e7c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -782,6 +782,13 @@ func (ctx *parserCtx) parseStartTag() error {
 
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
+			if attvalue == XMLNamespace {
+				return ctx.error(errors.New("xml namespace URI cannot be the default namespace"))
+			}
+			if attvalue == "http://www.w3.org/2000/xmlns/" {
+				return ctx.error(errors.New("reuse of the xmlns namespace name if forbidden"))
+			}
+
 			if ctx.nsTab.Declared("", nbNs) {
 				return ctx.error(errors.New("duplicate attribute is not allowed"))
 			}
@@ -808,6 +815,9 @@ func (ctx *parserCtx) parseStartTag() error {
 				// skip storing namespace definition
 				goto SkipNS
 			}
+			if attvalue == XMLNamespace {
+				return ctx.error(errors.New("xml namespace URI mapped to wrong prefix"))
+			}
 			if attname == XMLNsPrefix { // xmlns:xmlns="..."
 				return ctx.error(errors.New("redefinition of the xmlns prefix forbidden"))
 			}
-- 
2.43.0


From 759fe5c43d4ef453dc6b95d904bd7f43d886c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 79/83] fix: write a document in the encoding it declares

---
 dump.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dump.go b/dump.go
index 9590557..9cf2fbf 100644
--- a/dump.go
+++ b/dump.go
@@ -8,7 +8,9 @@ import (
 	"strings"
 	"unicode/utf8"
 
+	"github.com/lestrrat-go/helium/encoding"
 	"github.com/lestrrat-go/pdebug"
+	enc "golang.org/x/text/encoding"
 )
 
 var (
@@ -221,6 +223,21 @@ func (w *errWriter) Write(b []byte) (int, error) {
 
 func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 	w := &errWriter{out: out}
+
+	// the text has to be written in the encoding that is declared
+	if e := encoding.Load(doc.encoding); e != nil && e != encoding.Load("utf-8") {
+		tw := enc.HTMLEscapeUnsupported(e.NewEncoder()).Writer(w)
+		if err := d.dumpDoc(tw, doc); err != nil {
+			return err
+		}
+		if c, ok := tw.(io.Closer); ok {
+			if err := c.Close(); err != nil {
+				return err
+			}
+		}
+		return w.err
+	}
+
 	if err := d.dumpDoc(w, doc); err != nil {
 		return err
 	}
-- 
2.43.0


From f75f84636c9d5ab12823e906007de9c657ddef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 80/83] fix: a processing instruction such as xml-stylesheet
 may start the document

---
 parserctx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 4d79e7c..4f470b0 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -418,8 +418,10 @@ func (ctx *parserCtx) parseDocument() error {
 		return ctx.error(errors.New("empty document"))
 	}
 
-	// XML prolog
-	if bcur.HasPrefix(xmlDeclHint) {
+	// XML prolog. A longer target (e.g. "xml-stylesheet") starts an ordinary
+	// processing instruction. Look at one byte after the other, because asking
+	// for more bytes than there are makes the cursor lose what it has.
+	if bcur.Peek() == '<' && bcur.PeekN(2) == '?' && bcur.HasPrefix(xmlDeclHint) && isBlankCh(bcur.PeekN(6)) {
 		if err := ctx.parseXMLDecl(); err != nil {
 			return ctx.error(err)
 		}
-- 
2.43.0


From db5b3c4170cfe6b922a0068005f96c2bbbb2e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 81/83] fix: an element declaration without content is an error

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index 4f470b0..2afc7b1 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2588,6 +2588,7 @@ func (ctx *parserCtx) parseElementDecl() (ElementTypeVal, error) {
 		      }
 		      return(-1);
 		*/
+		return UndefinedElementType, ctx.error(errors.New("'EMPTY', 'ANY' or '(' expected"))
 	}
 
 	ctx.skipBlanks()
-- 
2.43.0


From 93638d2e4f7350eec1f37e185c0eb07731761e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 82/83] fix: accept the registered names of the windows and
 koi8 encodings

---
 encoding/encoding.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index a3fe32a..0ede864 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -60,37 +60,37 @@ func Load(name string) enc.Encoding {
 		return charmap.ISO8859_7
 	case "iso-8859-8":
 		return charmap.ISO8859_8
-	case "koi8r":
+	case "koi8-r", "koi8r":
 		return charmap.KOI8R
-	case "koi8u", "koir8u":
+	case "koi8-u", "koi8u", "koir8u":
 		return charmap.KOI8U
 	case "macintosh":
 		return charmap.Macintosh
-	case "macintoshcyrillic":
+	case "x-mac-cyrillic", "macintoshcyrillic":
 		return charmap.MacintoshCyrillic
-	case "windows1250":
+	case "windows-1250", "windows1250":
 		return charmap.Windows1250
-	case "windows1251":
+	case "windows-1251", "windows1251":
 		return charmap.Windows1251
 	case "iso-8859-1":
 		return charmap.ISO8859_1
-	case "windows1252":
+	case "windows-1252", "windows1252":
 		return charmap.Windows1252
-	case "windows1253":
+	case "windows-1253", "windows1253":
 		return charmap.Windows1253
-	case "windows1254":
+	case "windows-1254", "windows1254":
 		return charmap.Windows1254
-	case "windows1255":
+	case "windows-1255", "windows1255":
 		return charmap.Windows1255
-	case "windows1256":
+	case "windows-1256", "windows1256":
 		return charmap.Windows1256
-	case "windows1257":
+	case "windows-1257", "windows1257":
 		return charmap.Windows1257
-	case "windows1258":
+	case "windows-1258", "windows1258":
 		return charmap.Windows1258
-	case "windows874":
+	case "windows-874", "windows874":
 		return charmap.Windows874
-	case "xuserdefined":
+	case "x-user-defined", "xuserdefined":
 		return charmap.XUserDefined
 	}
 	return nil
-- 
2.43.0


From ce6f9d2b99e05b6f8d92fb7e2db590933b48d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 83/83] fix: do not walk from an entity reference into the
 declarations of the DTD

---
 node.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 1d5ea4b..130cfe1 100644
--- a/node.go
+++ b/node.go
@@ -70,7 +70,13 @@ func Walk(n Node, f WalkFunc) error {
 	if err := f(n); err != nil {
 		return err
 	}
-	for chld := n.FirstChild(); chld != nil; chld = chld.NextSibling() {
+	chld := n.FirstChild()
+	if chld != nil && n.Type() == EntityRefNode && chld.Type() == EntityNode {
+		// This is the declaration that the reference stands for. It is
+		// a child of the DTD, not of the reference, and so are its siblings.
+		return nil
+	}
+	for ; chld != nil; chld = chld.NextSibling() {
 		if err := Walk(chld, f); err != nil {
 			return err
 		}
-- 
2.43.0

