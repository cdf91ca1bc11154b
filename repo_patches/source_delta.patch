From 9b6ce2e9c4def80b68a58189aea6c004e0fb4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 01/22] fix: evaluate arguments with no content to empty
 content

An argument which evaluated to nothing (e.g. \bold{{}} or
\bold{\single-page}) was passed along as a nil Content, which caused a
panic either in the plugin or later on while rendering.
---
 stages/evaluate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index ac0f986..50994b6 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -327,5 +327,10 @@ func (eval Evaluate) evalArg(node ast.Node) (booklit.Content, error) {
 		return nil, err
 	}
 
+	if subEval.Result == nil {
+		// argument resulted in no content (e.g. an invoke with no return value)
+		return booklit.Empty, nil
+	}
+
 	return subEval.Result, nil
 }
-- 
2.43.0


From 1407170d437102b553526820175e89f2d534c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 02/22] fix: don't panic when a plugin method returns nil
 content

A nil booklit.Content returned by a plugin method, either on its own or
along with a nil error, is now treated the same as returning no value.
---
 stages/evaluate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 50994b6..0933a55 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -249,7 +249,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 				}
 			}
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			if content, ok := val.(booklit.Content); ok {
+				eval.Result = booklit.Append(eval.Result, content)
+			}
 		default:
 			return fmt.Errorf("unknown return type: %s", valType)
 		}
@@ -277,7 +279,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		firstType := methodType.Out(0)
 		switch reflect.New(firstType).Interface().(type) {
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			if content, ok := first.(booklit.Content); ok {
+				eval.Result = booklit.Append(eval.Result, content)
+			}
 		default:
 			return fmt.Errorf("unknown first return type: %s", firstType)
 		}
-- 
2.43.0


From 7dc6f0c947a188da9b42e9fbce41e06b83ccf2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 03/22] fix: restore the invoke location after evaluating
 arguments

Functions invoked within an argument left their own location behind, so
e.g. an unknown tag in \reference{foo}{\bold{x}} was reported at the
location of \bold.
---
 stages/evaluate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 0933a55..2c80c4f 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -226,6 +226,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		}
 	}
 
+	// evaluating the arguments may have invoked other functions
+	eval.Section.InvokeLocation = invoke.Location
+
 	result := method.Call(argv)
 
 	switch methodType.NumOut() {
-- 
2.43.0


From f7a741792db73bbcd117f05c44d374a6cc8302d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 04/22] fix: append every content given to Append

Append returned as soon as it had appended to a Sequence, dropping any
remaining content. It also appended in place, so two contents appended to
the same Sequence could overwrite one another.
---
 append.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/append.go b/append.go
index bfe65bf..5e231ad 100644
--- a/append.go
+++ b/append.go
@@ -16,9 +16,10 @@ func Append(first Content, rest ...Content) Content {
 		case nil:
 			appended = content
 		case Sequence:
-			return Sequence(append(v, content))
+			// limit the capacity so that the original Sequence is left alone
+			appended = append(v[:len(v):len(v)], content)
 		default:
-			return Sequence([]Content{appended, content})
+			appended = Sequence([]Content{appended, content})
 		}
 	}
 
-- 
2.43.0


From 0612ef2417a71720fd5b536f73932172ef9d4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 05/22] fix: strip aux content outside of sequences, and handle
 nil content

StripAux panicked on a Target or Reference with no content of its own, e.g.
\title{Foo \target{foo}}, and left Aux content alone unless it was an
element of a sequence, e.g. \title{\aux{Foo}} or \bold{\aux{foo}}.
---
 aux_.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aux_.go b/aux_.go
index a480908..fbcd908 100644
--- a/aux_.go
+++ b/aux_.go
@@ -12,7 +12,18 @@ type Aux struct {
 
 // StripAux recurses through Content and removes any Aux content from any
 // nested sequences.
+//
+// Aux content which is not in a sequence is replaced with empty content.
 func StripAux(content Content) Content {
+	if content == nil {
+		// e.g. a Reference or Target with no content of its own
+		return nil
+	}
+
+	if _, isAux := content.(Aux); isAux {
+		return Empty
+	}
+
 	visitor := &stripAuxVisitor{}
 
 	_ = content.Visit(visitor)
-- 
2.43.0


From bcee617276ebd430c685523b7866bfd1f5b01c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 06/22] fix: annotate the right characters in HTML error
 snippets

Rendering the error page failed with a panic when the error was located at a
linebreak, the wrong characters were highlighted in lines with multi-byte
characters, and the line was omitted if the error was located at its end.
---
 errors.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/errors.go b/errors.go
index 1dd3bb0..c14c74e 100644
--- a/errors.go
+++ b/errors.go
@@ -382,16 +382,31 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 		data.EOF = true
 	}
 
-	offset := loc.NodeLocation.Col - 1
-	if len(line) >= offset+loc.Length {
-		data.Prefix = line[0:offset]
-		data.Annotated = line[offset : offset+loc.Length]
-		data.Suffix = line[offset+loc.Length:]
-	}
+	// columns count characters, not bytes, and range from 0 (for a linebreak) to
+	// past the end of the line
+	chars := []rune(line)
+	start := clamp(loc.NodeLocation.Col-1, 0, len(chars))
+	end := clamp(start+loc.Length, start, len(chars))
+
+	data.Prefix = string(chars[:start])
+	data.Annotated = string(chars[start:end])
+	data.Suffix = string(chars[end:])
 
 	return errorTmpl.Lookup("annotated-line.tmpl").Execute(out, data)
 }
 
+func clamp(val, min, max int) int {
+	if val < min {
+		return min
+	}
+
+	if val > max {
+		return max
+	}
+
+	return val
+}
+
 func (loc ErrorLocation) lineInQuestion() (string, error) {
 	file, err := os.Open(loc.FilePath)
 	if err != nil {
-- 
2.43.0


From 1811c9786f9cc4ba831e7a928240a9c7c5a25fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 07/22] fix: find the right line for error snippets after long
 lines

Lines longer than the reader's buffer were counted as multiple lines.
---
 errors.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/errors.go b/errors.go
index c14c74e..5d44886 100644
--- a/errors.go
+++ b/errors.go
@@ -418,20 +418,19 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 	buf := bufio.NewReader(file)
 
 	for i := 0; i < loc.NodeLocation.Line-1; i++ {
-		_, _, err := buf.ReadLine()
+		_, err := buf.ReadString('\n')
 		if err != nil {
 			return "", err
 		}
 	}
 
-	lineInQuestion, _, err := buf.ReadLine()
-	if err != nil {
-		if err == io.EOF {
-			return "", nil
-		}
-
+	lineInQuestion, err := buf.ReadString('\n')
+	if err != nil && err != io.EOF {
 		return "", err
 	}
 
-	return string(lineInQuestion), nil
+	lineInQuestion = strings.TrimSuffix(lineInQuestion, "\n")
+	lineInQuestion = strings.TrimSuffix(lineInQuestion, "\r")
+
+	return lineInQuestion, nil
 }
-- 
2.43.0


From 82b30603c6e7f869e596c62bda63085a4d16e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 08/22] fix: re-parse sections whose modification time went
 backwards

A file replaced by an older one, e.g. when restoring a backup or moving a
file into place, kept being served with its previous content.
---
 load/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/load/processor.go b/load/processor.go
index 315da94..4d1411e 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -76,7 +76,7 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 	})
 
 	var node ast.Node
-	if found && !modTime.After(parsed.ModTime) {
+	if found && modTime.Equal(parsed.ModTime) {
 		log.Debug("already parsed section")
 		node = parsed.Node
 	} else {
-- 
2.43.0


From ee358e78cda68bf5c4d626bd409f5f4b03fe278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 09/22] fix: close the file when a section fails to parse

---
 load/processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/load/processor.go b/load/processor.go
index 4d1411e..d331ce9 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -89,6 +89,8 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 
 		result, err := ast.ParseReader(path, file)
 		if err != nil {
+			_ = file.Close()
+
 			astErr, ok := ast.UnpackError(err)
 			if !ok {
 				return nil, err
-- 
2.43.0


From da65963c08bff001451323b1f899ef78a973b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 10/22] fix: notice removed templates, and retry templates that
 failed to load

LoadTemplates remembered the modification time of each template before
loading it, so after reporting an error once it kept rendering with whichever
templates were loaded before the broken one. Templates that were removed or
replaced by an older file were also left loaded.
---
 render/html.go | 14 +++++++++++---
 render/text.go | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/render/html.go b/render/html.go
index 8c83a19..794f450 100644
--- a/render/html.go
+++ b/render/html.go
@@ -112,7 +112,10 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	// reload if any templates were added, removed, or replaced
+	shouldReload := len(templates) != len(engine.tmplModTimes)
+
+	modTimes := map[string]time.Time{}
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -122,17 +125,20 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
 		return nil
 	}
 
+	// try again next time if any of them fail to load
+	engine.tmplModTimes = nil
+
 	engine.resetTmpl()
 
 	for _, path := range templates {
@@ -149,6 +155,8 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
diff --git a/render/text.go b/render/text.go
index 04a1f0c..d43dcdd 100644
--- a/render/text.go
+++ b/render/text.go
@@ -104,7 +104,10 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	// reload if any templates were added, removed, or replaced
+	shouldReload := len(templates) != len(engine.tmplModTimes)
+
+	modTimes := map[string]time.Time{}
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -114,17 +117,20 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
 		return nil
 	}
 
+	// try again next time if any of them fail to load
+	engine.tmplModTimes = nil
+
 	engine.resetTmpl()
 
 	for _, path := range templates {
@@ -141,6 +147,8 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
-- 
2.43.0


From 6ca194aa2db03958d3eee600d7c412ee518e8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 11/22] fix: collect tags in partials in a consistent order

Partials were visited in random order, so the order of a section's tags, and
with it the output, varied between builds of the same content.
---
 stages/collect.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/stages/collect.go b/stages/collect.go
index 05708e2..5a53b90 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -1,6 +1,10 @@
 package stages
 
-import "github.com/vito/booklit"
+import (
+	"sort"
+
+	"github.com/vito/booklit"
+)
 
 // Collect is a booklit.Visitor that collects all tag targets and sets them on
 // the section.
@@ -67,11 +71,9 @@ func (collect *Collect) VisitSection(con *booklit.Section) error {
 		return err
 	}
 
-	for _, p := range con.Partials {
-		err = p.Visit(collect)
-		if err != nil {
-			return err
-		}
+	err = collect.visitPartials(con.Partials)
+	if err != nil {
+		return err
 	}
 
 	for _, child := range con.Children {
@@ -100,12 +102,26 @@ func (collect *Collect) VisitStyled(con booklit.Styled) error {
 		return err
 	}
 
-	for _, v := range con.Partials {
-		if v == nil {
+	return collect.visitPartials(con.Partials)
+}
+
+// visitPartials visits each partial, ordered by name so that tags are always
+// collected in the same order.
+func (collect *Collect) visitPartials(partials booklit.Partials) error {
+	names := []string{}
+	for name := range partials {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		partial := partials[name]
+		if partial == nil {
 			continue
 		}
 
-		err := v.Visit(collect)
+		err := partial.Visit(collect)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 95dbc0d3d92dab598f74bd5c1340c62ecd6f8b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 12/22] fix: respect \single-page regardless of where it is
 called

Calling \single-page after \split-sections, or after a child section which
calls \split-sections, left those sections split across pages.
---
 baselit/plugin.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index d78d873..d416568 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -94,6 +94,17 @@ func (plugin Plugin) IncludeSection(path string) error {
 
 func (plugin Plugin) SinglePage() {
 	plugin.section.PreventSplitSections = true
+
+	// any of these may have been split before we were told not to
+	unsplitSections(plugin.section)
+}
+
+func unsplitSections(section *booklit.Section) {
+	section.SplitSections = false
+
+	for _, child := range section.Children {
+		unsplitSections(child)
+	}
 }
 
 func (plugin Plugin) SplitSections() {
-- 
2.43.0


From 8aea43b8e9d4c7dd2fbb2b435e8d9d96046bad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 13/22] fix: fall back to page.tmpl for styled sections in the
 text renderer

A page with \styled failed to render unless a (style)-page.tmpl was provided,
contrary to the documentation and to the HTML renderer.
---
 render/text.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/render/text.go b/render/text.go
index d43dcdd..d7ef8fe 100644
--- a/render/text.go
+++ b/render/text.go
@@ -168,14 +168,23 @@ func (engine *TextEngine) URL(tag booklit.Tag) string {
 // If the section has Style set and a template named (Style)-page.tmpl exists
 // it will be used instead.
 func (engine *TextEngine) RenderSection(out io.Writer, con *booklit.Section) error {
-	tmpl := "page"
+	engine.data = con
+
+	try := []string{}
+
 	if con.Style != "" {
-		tmpl = con.Style + "-page"
+		try = append(try, con.Style+"-page")
 	}
 
-	engine.data = con
+	try = append(try, "page")
 
-	err := engine.setTmpl(tmpl)
+	var err error
+	for _, tmpl := range try {
+		err = engine.setTmpl(tmpl)
+		if err == nil {
+			break
+		}
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2b82524c4a125c23334f019def80055ec624fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 14/22] fix: track indentation separately for each preformatted
 block

The indentation to strip was stored globally while parsing, so a block nested
in another block's argument was stripped by the outer block's indentation and
the outer block's remaining lines were stripped incorrectly.
---
 ast/booklit.peg    |  35 +++-----
 ast/booklit.peg.go | 213 +++++++++++++++++++++------------------------
 ast/indent.go      |  30 +++++++
 3 files changed, 141 insertions(+), 137 deletions(-)
 create mode 100644 ast/indent.go

diff --git a/ast/booklit.peg b/ast/booklit.peg
index dc0c4dc..fab90a4 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -81,14 +81,14 @@ VerbatimString <- str:[^\r\n}]+ {
 }
 
 PreformattedBlockLine <- indent:Indent words:Word* LineBreak {
-  line := []Node{String(indent.(string))}
-  line = append(line, ifaceNodes(words)...)
-  return Sequence(line), nil
+  return indentedLine{
+    Indent: indent.(string),
+    Words: ifaceNodes(words),
+  }, nil
 }
 
 PreformattedBlock <- LineBreak lines:PreformattedBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  return Preformatted(ifaceUnindented(lines)), nil
 }
 
 VerbatimLine <- words:VerbatimString* {
@@ -96,14 +96,14 @@ VerbatimLine <- words:VerbatimString* {
 }
 
 VerbatimBlockLine <- indent:Indent words:VerbatimString* LineBreak {
-  line := []Node{String(indent.(string))}
-  line = append(line, ifaceNodes(words)...)
-  return Sequence(line), nil
+  return indentedLine{
+    Indent: indent.(string),
+    Words: ifaceNodes(words),
+  }, nil
 }
 
 VerbatimBlock <- LineBreak lines:VerbatimBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  return Preformatted(ifaceUnindented(lines)), nil
 }
 
 Invoke <- '\\' name:([a-z-]+) args:(Argument*) {
@@ -144,18 +144,5 @@ ParaArg <- paras:Paragraphs [ \t]* {
 Argument <- VerbatimArg / PreformattedArg / Arg
 
 Indent <- [ \t]* {
-  skip := len(c.text)
-
-  i, found := c.globalStore["indent-skip"]
-  if found {
-    skip = i.(int)
-  } else {
-    c.globalStore["indent-skip"] = skip
-  }
-
-  if skip <= len(c.text) {
-    return string(c.text[skip:]), nil
-  } else {
-    return "", nil
-  }
+  return string(c.text), nil
 }
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index d2bd5be..063fdae 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -586,32 +586,32 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlock",
-			pos:  position{line: 89, col: 1, offset: 1918},
+			pos:  position{line: 90, col: 1, offset: 1894},
 			expr: &actionExpr{
-				pos: position{line: 89, col: 22, offset: 1939},
+				pos: position{line: 90, col: 22, offset: 1915},
 				run: (*parser).callonPreformattedBlock1,
 				expr: &seqExpr{
-					pos: position{line: 89, col: 22, offset: 1939},
+					pos: position{line: 90, col: 22, offset: 1915},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 89, col: 22, offset: 1939},
+							pos:  position{line: 90, col: 22, offset: 1915},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 89, col: 32, offset: 1949},
+							pos:   position{line: 90, col: 32, offset: 1925},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 89, col: 38, offset: 1955},
+								pos: position{line: 90, col: 38, offset: 1931},
 								expr: &ruleRefExpr{
-									pos:  position{line: 89, col: 38, offset: 1955},
+									pos:  position{line: 90, col: 38, offset: 1931},
 									name: "PreformattedBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 89, col: 61, offset: 1978},
+							pos: position{line: 90, col: 61, offset: 1954},
 							expr: &charClassMatcher{
-								pos:        position{line: 89, col: 61, offset: 1978},
+								pos:        position{line: 90, col: 61, offset: 1954},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -624,17 +624,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 94, col: 1, offset: 2079},
+			pos:  position{line: 94, col: 1, offset: 2017},
 			expr: &actionExpr{
-				pos: position{line: 94, col: 17, offset: 2095},
+				pos: position{line: 94, col: 17, offset: 2033},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 94, col: 17, offset: 2095},
+					pos:   position{line: 94, col: 17, offset: 2033},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 94, col: 23, offset: 2101},
+						pos: position{line: 94, col: 23, offset: 2039},
 						expr: &ruleRefExpr{
-							pos:  position{line: 94, col: 23, offset: 2101},
+							pos:  position{line: 94, col: 23, offset: 2039},
 							name: "VerbatimString",
 						},
 					},
@@ -643,34 +643,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 98, col: 1, offset: 2164},
+			pos:  position{line: 98, col: 1, offset: 2102},
 			expr: &actionExpr{
-				pos: position{line: 98, col: 22, offset: 2185},
+				pos: position{line: 98, col: 22, offset: 2123},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 98, col: 22, offset: 2185},
+					pos: position{line: 98, col: 22, offset: 2123},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 98, col: 22, offset: 2185},
+							pos:   position{line: 98, col: 22, offset: 2123},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 98, col: 29, offset: 2192},
+								pos:  position{line: 98, col: 29, offset: 2130},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 98, col: 36, offset: 2199},
+							pos:   position{line: 98, col: 36, offset: 2137},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 98, col: 42, offset: 2205},
+								pos: position{line: 98, col: 42, offset: 2143},
 								expr: &ruleRefExpr{
-									pos:  position{line: 98, col: 42, offset: 2205},
+									pos:  position{line: 98, col: 42, offset: 2143},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 98, col: 58, offset: 2221},
+							pos:  position{line: 98, col: 58, offset: 2159},
 							name: "LineBreak",
 						},
 					},
@@ -679,32 +679,32 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 104, col: 1, offset: 2351},
+			pos:  position{line: 105, col: 1, offset: 2265},
 			expr: &actionExpr{
-				pos: position{line: 104, col: 18, offset: 2368},
+				pos: position{line: 105, col: 18, offset: 2282},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 104, col: 18, offset: 2368},
+					pos: position{line: 105, col: 18, offset: 2282},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 104, col: 18, offset: 2368},
+							pos:  position{line: 105, col: 18, offset: 2282},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 104, col: 28, offset: 2378},
+							pos:   position{line: 105, col: 28, offset: 2292},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 104, col: 34, offset: 2384},
+								pos: position{line: 105, col: 34, offset: 2298},
 								expr: &ruleRefExpr{
-									pos:  position{line: 104, col: 34, offset: 2384},
+									pos:  position{line: 105, col: 34, offset: 2298},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 104, col: 53, offset: 2403},
+							pos: position{line: 105, col: 53, offset: 2317},
 							expr: &charClassMatcher{
-								pos:        position{line: 104, col: 53, offset: 2403},
+								pos:        position{line: 105, col: 53, offset: 2317},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -717,26 +717,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 109, col: 1, offset: 2504},
+			pos:  position{line: 109, col: 1, offset: 2380},
 			expr: &actionExpr{
-				pos: position{line: 109, col: 11, offset: 2514},
+				pos: position{line: 109, col: 11, offset: 2390},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 109, col: 11, offset: 2514},
+					pos: position{line: 109, col: 11, offset: 2390},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 109, col: 11, offset: 2514},
+							pos:        position{line: 109, col: 11, offset: 2390},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 16, offset: 2519},
+							pos:   position{line: 109, col: 16, offset: 2395},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 109, col: 22, offset: 2525},
+								pos: position{line: 109, col: 22, offset: 2401},
 								expr: &charClassMatcher{
-									pos:        position{line: 109, col: 22, offset: 2525},
+									pos:        position{line: 109, col: 22, offset: 2401},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -746,12 +746,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 31, offset: 2534},
+							pos:   position{line: 109, col: 31, offset: 2410},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 109, col: 37, offset: 2540},
+								pos: position{line: 109, col: 37, offset: 2416},
 								expr: &ruleRefExpr{
-									pos:  position{line: 109, col: 37, offset: 2540},
+									pos:  position{line: 109, col: 37, offset: 2416},
 									name: "Argument",
 								},
 							},
@@ -762,38 +762,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 122, col: 1, offset: 2756},
+			pos:  position{line: 122, col: 1, offset: 2632},
 			expr: &actionExpr{
-				pos: position{line: 122, col: 16, offset: 2771},
+				pos: position{line: 122, col: 16, offset: 2647},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 122, col: 16, offset: 2771},
+					pos: position{line: 122, col: 16, offset: 2647},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 122, col: 16, offset: 2771},
+							pos:        position{line: 122, col: 16, offset: 2647},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 122, col: 22, offset: 2777},
+							pos:   position{line: 122, col: 22, offset: 2653},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 122, col: 28, offset: 2783},
+								pos: position{line: 122, col: 28, offset: 2659},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 28, offset: 2783},
+										pos:  position{line: 122, col: 28, offset: 2659},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 44, offset: 2799},
+										pos:  position{line: 122, col: 44, offset: 2675},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 122, col: 58, offset: 2813},
+							pos:        position{line: 122, col: 58, offset: 2689},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -804,29 +804,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 126, col: 1, offset: 2843},
+			pos:  position{line: 126, col: 1, offset: 2719},
 			expr: &actionExpr{
-				pos: position{line: 126, col: 20, offset: 2862},
+				pos: position{line: 126, col: 20, offset: 2738},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 126, col: 20, offset: 2862},
+					pos: position{line: 126, col: 20, offset: 2738},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 126, col: 20, offset: 2862},
+							pos:        position{line: 126, col: 20, offset: 2738},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 25, offset: 2867},
+							pos:   position{line: 126, col: 25, offset: 2743},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 126, col: 30, offset: 2872},
+								pos:  position{line: 126, col: 30, offset: 2748},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 126, col: 48, offset: 2890},
+							pos:        position{line: 126, col: 48, offset: 2766},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -837,14 +837,14 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 130, col: 1, offset: 2919},
+			pos:  position{line: 130, col: 1, offset: 2795},
 			expr: &actionExpr{
-				pos: position{line: 130, col: 13, offset: 2931},
+				pos: position{line: 130, col: 13, offset: 2807},
 				run: (*parser).callonEmptyArg1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 130, col: 13, offset: 2931},
+					pos: position{line: 130, col: 13, offset: 2807},
 					expr: &ruleRefExpr{
-						pos:  position{line: 130, col: 13, offset: 2931},
+						pos:  position{line: 130, col: 13, offset: 2807},
 						name: "CommentSpacing",
 					},
 				},
@@ -852,37 +852,37 @@ var g = &grammar{
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 132, col: 1, offset: 2968},
+			pos:  position{line: 132, col: 1, offset: 2844},
 			expr: &actionExpr{
-				pos: position{line: 132, col: 8, offset: 2975},
+				pos: position{line: 132, col: 8, offset: 2851},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 132, col: 8, offset: 2975},
+					pos: position{line: 132, col: 8, offset: 2851},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 132, col: 8, offset: 2975},
+							pos:        position{line: 132, col: 8, offset: 2851},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 132, col: 12, offset: 2979},
+							pos:   position{line: 132, col: 12, offset: 2855},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 132, col: 17, offset: 2984},
+								pos: position{line: 132, col: 17, offset: 2860},
 								expr: &choiceExpr{
-									pos: position{line: 132, col: 18, offset: 2985},
+									pos: position{line: 132, col: 18, offset: 2861},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 18, offset: 2985},
+											pos:  position{line: 132, col: 18, offset: 2861},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 32, offset: 2999},
+											pos:  position{line: 132, col: 32, offset: 2875},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 42, offset: 3009},
+											pos:  position{line: 132, col: 42, offset: 2885},
 											name: "EmptyArg",
 										},
 									},
@@ -890,7 +890,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 132, col: 53, offset: 3020},
+							pos:        position{line: 132, col: 53, offset: 2896},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -901,25 +901,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 140, col: 1, offset: 3111},
+			pos:  position{line: 140, col: 1, offset: 2987},
 			expr: &actionExpr{
-				pos: position{line: 140, col: 12, offset: 3122},
+				pos: position{line: 140, col: 12, offset: 2998},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 140, col: 12, offset: 3122},
+					pos: position{line: 140, col: 12, offset: 2998},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 140, col: 12, offset: 3122},
+							pos:   position{line: 140, col: 12, offset: 2998},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 140, col: 18, offset: 3128},
+								pos:  position{line: 140, col: 18, offset: 3004},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 140, col: 29, offset: 3139},
+							pos: position{line: 140, col: 29, offset: 3015},
 							expr: &charClassMatcher{
-								pos:        position{line: 140, col: 29, offset: 3139},
+								pos:        position{line: 140, col: 29, offset: 3015},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -932,20 +932,20 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 144, col: 1, offset: 3171},
+			pos:  position{line: 144, col: 1, offset: 3047},
 			expr: &choiceExpr{
-				pos: position{line: 144, col: 13, offset: 3183},
+				pos: position{line: 144, col: 13, offset: 3059},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 13, offset: 3183},
+						pos:  position{line: 144, col: 13, offset: 3059},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 27, offset: 3197},
+						pos:  position{line: 144, col: 27, offset: 3073},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 45, offset: 3215},
+						pos:  position{line: 144, col: 45, offset: 3091},
 						name: "Arg",
 					},
 				},
@@ -953,14 +953,14 @@ var g = &grammar{
 		},
 		{
 			name: "Indent",
-			pos:  position{line: 146, col: 1, offset: 3220},
+			pos:  position{line: 146, col: 1, offset: 3096},
 			expr: &actionExpr{
-				pos: position{line: 146, col: 11, offset: 3230},
+				pos: position{line: 146, col: 11, offset: 3106},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 146, col: 11, offset: 3230},
+					pos: position{line: 146, col: 11, offset: 3106},
 					expr: &charClassMatcher{
-						pos:        position{line: 146, col: 11, offset: 3230},
+						pos:        position{line: 146, col: 11, offset: 3106},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
@@ -1118,9 +1118,10 @@ func (p *parser) callonVerbatimString6() (interface{}, error) {
 }
 
 func (c *current) onPreformattedBlockLine1(indent, words interface{}) (interface{}, error) {
-	line := []Node{String(indent.(string))}
-	line = append(line, ifaceNodes(words)...)
-	return Sequence(line), nil
+	return indentedLine{
+		Indent: indent.(string),
+		Words:  ifaceNodes(words),
+	}, nil
 }
 
 func (p *parser) callonPreformattedBlockLine1() (interface{}, error) {
@@ -1130,8 +1131,7 @@ func (p *parser) callonPreformattedBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onPreformattedBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	return Preformatted(ifaceUnindented(lines)), nil
 }
 
 func (p *parser) callonPreformattedBlock1() (interface{}, error) {
@@ -1151,9 +1151,10 @@ func (p *parser) callonVerbatimLine1() (interface{}, error) {
 }
 
 func (c *current) onVerbatimBlockLine1(indent, words interface{}) (interface{}, error) {
-	line := []Node{String(indent.(string))}
-	line = append(line, ifaceNodes(words)...)
-	return Sequence(line), nil
+	return indentedLine{
+		Indent: indent.(string),
+		Words:  ifaceNodes(words),
+	}, nil
 }
 
 func (p *parser) callonVerbatimBlockLine1() (interface{}, error) {
@@ -1163,8 +1164,7 @@ func (p *parser) callonVerbatimBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onVerbatimBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	return Preformatted(ifaceUnindented(lines)), nil
 }
 
 func (p *parser) callonVerbatimBlock1() (interface{}, error) {
@@ -1247,20 +1247,7 @@ func (p *parser) callonParaArg1() (interface{}, error) {
 }
 
 func (c *current) onIndent1() (interface{}, error) {
-	skip := len(c.text)
-
-	i, found := c.globalStore["indent-skip"]
-	if found {
-		skip = i.(int)
-	} else {
-		c.globalStore["indent-skip"] = skip
-	}
-
-	if skip <= len(c.text) {
-		return string(c.text[skip:]), nil
-	} else {
-		return "", nil
-	}
+	return string(c.text), nil
 }
 
 func (p *parser) callonIndent1() (interface{}, error) {
diff --git a/ast/indent.go b/ast/indent.go
new file mode 100644
index 0000000..164be8a
--- /dev/null
+++ b/ast/indent.go
@@ -0,0 +1,30 @@
+package ast
+
+// indentedLine is a line within a preformatted or verbatim block.
+type indentedLine struct {
+	Indent string
+	Words  []Node
+}
+
+// ifaceUnindented strips the first line's indentation from each line.
+func ifaceUnindented(val interface{}) []Sequence {
+	skip := 0
+
+	seq := []Sequence{}
+	for i, l := range val.([]interface{}) {
+		line := l.(indentedLine)
+
+		if i == 0 {
+			skip = len(line.Indent)
+		}
+
+		indent := ""
+		if skip <= len(line.Indent) {
+			indent = line.Indent[skip:]
+		}
+
+		seq = append(seq, append(Sequence{String(indent)}, line.Words...))
+	}
+
+	return seq
+}
-- 
2.43.0


From b4e369fcc8f6a3ff846481f7a7a4a4367089b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 15/22] fix: return an error when a section includes itself

Including a section from within itself, either directly or by way of another
included section, recursed until the process crashed.
---
 baselit/plugin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index d416568..91cb772 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -82,6 +82,12 @@ func (plugin Plugin) Section(node ast.Node) error {
 func (plugin Plugin) IncludeSection(path string) error {
 	sectionPath := filepath.Join(filepath.Dir(plugin.section.FilePath()), path)
 
+	for parent := plugin.section; parent != nil; parent = parent.Parent {
+		if parent.Path != "" && filepath.Clean(parent.Path) == sectionPath {
+			return fmt.Errorf("section '%s' includes itself", sectionPath)
+		}
+	}
+
 	section, err := plugin.section.Processor.EvaluateFile(plugin.section, sectionPath, []booklit.PluginFactory{NewPlugin})
 	if err != nil {
 		return err
-- 
2.43.0


From 30203e9e7f4edaa670a84df6702472ee042c988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 16/22] fix: fail to render a title which references itself
 instead of crashing

A title containing a reference to its own section, or to another section
whose title refers back to it, recursed until the process crashed.
---
 reference.go     | 11 +++++++++++
 render/common.go | 12 +++++++++++-
 render/html.go   | 13 +++++++++++++
 render/text.go   | 13 +++++++++++++
 4 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/reference.go b/reference.go
index b026c3e..7e776a1 100644
--- a/reference.go
+++ b/reference.go
@@ -34,6 +34,10 @@ type Reference struct {
 
 	// The result of Resolving the reference.
 	tag *Tag
+
+	// Set while summarizing the reference, in case its tag's title refers back
+	// to it.
+	summarizing bool
 }
 
 // IsFlow returns true.
@@ -52,6 +56,13 @@ func (con *Reference) String() string {
 		return fmt.Sprintf("{broken reference: %s: %s}", con.TagName, err)
 	}
 
+	if con.summarizing {
+		return fmt.Sprintf("{circular reference: %s}", con.TagName)
+	}
+
+	con.summarizing = true
+	defer func() { con.summarizing = false }()
+
 	return tag.Title.String()
 }
 
diff --git a/render/common.go b/render/common.go
index 4af1648..1440fba 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,6 +1,16 @@
 package render
 
-import "github.com/vito/booklit"
+import (
+	"errors"
+
+	"github.com/vito/booklit"
+)
+
+// maxRenderDepth limits how deeply content may be nested, to fail instead of
+// recursing forever when content ends up containing itself.
+const maxRenderDepth = 1000
+
+var errNestedTooDeeply = errors.New("content is nested too deeply; does a title reference itself?")
 
 // WalkContext is a utility type constructed via the walkContext template
 // function.
diff --git a/render/html.go b/render/html.go
index 794f450..f37a3e0 100644
--- a/render/html.go
+++ b/render/html.go
@@ -84,6 +84,8 @@ type HTMLEngine struct {
 
 	template *template.Template
 	data     interface{}
+
+	depth int
 }
 
 // NewHTMLEngine constructs a new HTMLEngine with the basic set of HTML
@@ -322,6 +324,13 @@ func (engine *HTMLEngine) render(out io.Writer) error {
 }
 
 func (engine *HTMLEngine) subRender(content booklit.Content) (template.HTML, error) {
+	engine.depth++
+	defer func() { engine.depth-- }()
+
+	if engine.depth > maxRenderDepth {
+		return "", errNestedTooDeeply
+	}
+
 	buf := new(bytes.Buffer)
 
 	subEngine := NewHTMLEngine()
@@ -333,6 +342,10 @@ func (engine *HTMLEngine) subRender(content booklit.Content) (template.HTML, err
 	}
 
 	err = subEngine.render(buf)
+	if errors.Is(err, errNestedTooDeeply) {
+		// don't repeat every template along the way
+		return "", errNestedTooDeeply
+	}
 	if err != nil {
 		return "", err
 	}
diff --git a/render/text.go b/render/text.go
index d7ef8fe..2f0da10 100644
--- a/render/text.go
+++ b/render/text.go
@@ -69,6 +69,8 @@ type TextEngine struct {
 
 	template *template.Template
 	data     interface{}
+
+	depth int
 }
 
 // NewTextEngine constructs a new TextEngine with the basic set of text
@@ -315,6 +317,13 @@ func (engine *TextEngine) render(out io.Writer) error {
 }
 
 func (engine *TextEngine) subRender(content booklit.Content) (string, error) {
+	engine.depth++
+	defer func() { engine.depth-- }()
+
+	if engine.depth > maxRenderDepth {
+		return "", errNestedTooDeeply
+	}
+
 	buf := new(bytes.Buffer)
 
 	subEngine := NewTextEngine(engine.fileExtension)
@@ -326,6 +335,10 @@ func (engine *TextEngine) subRender(content booklit.Content) (string, error) {
 	}
 
 	err = subEngine.render(buf)
+	if errors.Is(err, errNestedTooDeeply) {
+		// don't repeat every template along the way
+		return "", errNestedTooDeeply
+	}
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 2e1eec285025701e59ad61709021d8ca160e3ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 17/22] fix: escape tag names in URLs

Tags containing characters with a special meaning in a URL, e.g. 'c#' or
'api:v1', resulted in broken links.
---
 render/common.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/render/common.go b/render/common.go
index 1440fba..94acd59 100644
--- a/render/common.go
+++ b/render/common.go
@@ -2,6 +2,8 @@ package render
 
 import (
 	"errors"
+	"net/url"
+	"strings"
 
 	"github.com/vito/booklit"
 )
@@ -42,11 +44,17 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 		return sectionURL(ext, owner, anchor)
 	}
 
-	filename := section.PrimaryTag.Name + "." + ext
+	filename := escapeTag(section.PrimaryTag.Name) + "." + ext
 
 	if anchor != "" {
-		filename += "#" + anchor
+		filename += "#" + escapeTag(anchor)
 	}
 
 	return filename
 }
+
+// escapeTag escapes any characters in a tag name that have a special meaning
+// in a URL, including ':' so that it's not mistaken for the URL's scheme.
+func escapeTag(name string) string {
+	return strings.ReplaceAll(url.PathEscape(name), ":", "%3A")
+}
-- 
2.43.0


From 3bd4ce8bca5d5fdf2ffe8354bafb1e4a7de5d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 18/22] fix: text section headings are separated from the
 section's body

---
 render/text/bindata.go   | 4 ++--
 render/text/section.tmpl | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/text/bindata.go b/render/text/bindata.go
index cf0bd0a..9f1c16f 100644
--- a/render/text/bindata.go
+++ b/render/text/bindata.go
@@ -164,7 +164,7 @@ func renderTextPreformattedTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _renderTextSectionTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x4c\xcd\xc1\x09\x02\x41\x0c\x85\xe1\xfb\x54\x91\x06\x4c\x11\x7a\x17\x61\x6d\x60\x75\xb2\x1a\x18\x33\x12\xe3\x41\x9e\xe9\x5d\x58\x65\xf0\xf4\xe0\x83\xc7\x0f\xe8\x42\x7c\x98\x5d\x2c\x32\x01\xde\x3f\x6f\x27\xf1\x4c\x02\xc4\xea\x4a\x47\x8d\x26\xf4\x26\x17\xab\xe2\xb4\xc9\x2c\x05\xe0\x6d\xaf\xaf\xa1\x5f\xd3\x85\xac\x07\xf1\x74\x6f\x1a\x93\x9c\x43\xbb\x3d\x32\x0b\xe0\xb3\x5d\x84\x78\x77\xd5\x56\x5d\x6c\x35\xfe\x7f\xff\x72\x63\x3f\x01\x00\x00\xff\xff\x34\xbb\x8c\x55\x99\x00\x00\x00")
+var _renderTextSectionTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x5c\xcd\xc1\x09\x02\x41\x0c\x85\xe1\xfb\x54\x91\x0a\x52\x84\xde\x45\x58\x1b\x58\x4d\x56\x03\x63\x46\x62\x3c\xc8\x33\xbd\x8b\x8b\x07\xf1\xfa\x3d\x1e\x3f\x60\x0b\xf1\x7e\x0e\xf5\xac\x02\x78\xf7\xb8\x1e\x35\xaa\x08\x50\x97\x95\x0e\x96\x5d\xe9\x45\xa1\x2e\x9f\xa9\x35\x80\x37\x43\x9e\x7f\x66\x0b\xf9\x48\xe2\xe9\xd6\x2d\x27\x3d\xa5\x0d\xbf\x57\x35\x20\x66\x3f\x2b\xf1\xf6\x62\x5d\x42\x7d\x35\xfe\x7d\x7f\x63\x0d\x50\x97\xaa\xf6\x1e\x00\xcc\xc5\xfe\x5c\x97\x00\x00\x00")
 
 func renderTextSectionTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -179,7 +179,7 @@ func renderTextSectionTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "render/text/section.tmpl", size: 153, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
+	info := bindataFileInfo{name: "render/text/section.tmpl", size: 151, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
 	a := &asset{bytes: bytes, info: info}
 	return a, nil
 }
diff --git a/render/text/section.tmpl b/render/text/section.tmpl
index bc8c0fc..4422fbf 100644
--- a/render/text/section.tmpl
+++ b/render/text/section.tmpl
@@ -1,4 +1,4 @@
-{{if .Parent}}{{.Number}} {{end}}{{.Title | render -}}
+{{if .Parent}}{{.Number}} {{end}}{{.Title | render}}
 
 {{.Body | render}}
 
-- 
2.43.0


From b64eac22081b01bf617487537ac5d620f33bc4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 19/22] fix: tell where a call has the wrong number of
 arguments

---
 stages/evaluate.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 2c80c4f..9dc0f33 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -194,10 +194,18 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		argc--
 
 		if len(rawArgs) < argc {
-			return fmt.Errorf("argument count mismatch for %s: given %d, need at least %d", invoke.Function, len(rawArgs), argc)
+			return booklit.FailedFunctionError{
+				Function:      invoke.Function,
+				Err:           fmt.Errorf("argument count mismatch for %s: given %d, need at least %d", invoke.Function, len(rawArgs), argc),
+				ErrorLocation: loc,
+			}
 		}
 	} else if len(rawArgs) != argc {
-		return fmt.Errorf("argument count mismatch for %s: given %d, need %d", invoke.Function, len(rawArgs), argc)
+		return booklit.FailedFunctionError{
+			Function:      invoke.Function,
+			Err:           fmt.Errorf("argument count mismatch for %s: given %d, need %d", invoke.Function, len(rawArgs), argc),
+			ErrorLocation: loc,
+		}
 	}
 
 	argv := make([]reflect.Value, argc)
-- 
2.43.0


From d55bc22e9552396d95dd3dcef9e6728646aec252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 20/22] fix: leave auxiliary content out of deferred content
 too

A title with deferred content kept its auxiliary parts in links and tables of
contents. Strip the content once it is known, without forcing it early.
---
 aux_.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aux_.go b/aux_.go
index fbcd908..81e3616 100644
--- a/aux_.go
+++ b/aux_.go
@@ -138,7 +138,21 @@ func (strip *stripAuxVisitor) VisitDefinitions(con Definitions) error {
 }
 
 func (strip *stripAuxVisitor) VisitLazy(con *Lazy) error {
-	strip.Result = con
+	fn := func() (Content, error) {
+		content, err := con.Force()
+		if err != nil {
+			return nil, err
+		}
+
+		return StripAux(content), nil
+	}
+
+	if con.Block {
+		strip.Result = LazyBlock(fn)
+	} else {
+		strip.Result = LazyFlow(fn)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 067985cdcbb17c50dc36e1f2ae480e6426a56c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 21/22] fix: retry templates which failed to load after all of
 them are removed

---
 render/html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/html.go b/render/html.go
index f37a3e0..de9ee95 100644
--- a/render/html.go
+++ b/render/html.go
@@ -115,7 +115,7 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 	}
 
 	// reload if any templates were added, removed, or replaced
-	shouldReload := len(templates) != len(engine.tmplModTimes)
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
 
 	modTimes := map[string]time.Time{}
 	for _, path := range templates {
-- 
2.43.0


From 3de96f953f03f376a68865a147c8e49742a81574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 22/22] fix: load templates from directories of any name, and
 fail if there is none

---
 render/common.go | 20 ++++++++++++++++++++
 render/html.go   |  2 +-
 render/text.go   |  2 +-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/render/common.go b/render/common.go
index 94acd59..8aa2d3a 100644
--- a/render/common.go
+++ b/render/common.go
@@ -3,6 +3,8 @@ package render
 import (
 	"errors"
 	"net/url"
+	"os"
+	"path/filepath"
 	"strings"
 
 	"github.com/vito/booklit"
@@ -58,3 +60,21 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 func escapeTag(name string) string {
 	return strings.ReplaceAll(url.PathEscape(name), ":", "%3A")
 }
+
+// templateFiles lists the *.tmpl files in the directory, which may have any
+// name, and must exist.
+func templateFiles(dir string) ([]string, error) {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return nil, err
+	}
+
+	paths := []string{}
+	for _, entry := range entries {
+		if strings.HasSuffix(entry.Name(), ".tmpl") {
+			paths = append(paths, filepath.Join(dir, entry.Name()))
+		}
+	}
+
+	return paths, nil
+}
diff --git a/render/html.go b/render/html.go
index de9ee95..0004912 100644
--- a/render/html.go
+++ b/render/html.go
@@ -109,7 +109,7 @@ func (engine *HTMLEngine) resetTmpl() {
 
 // LoadTemplates loads all *.tmpl files in the specified directory.
 func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
-	templates, err := filepath.Glob(filepath.Join(templatesDir, "*.tmpl"))
+	templates, err := templateFiles(templatesDir)
 	if err != nil {
 		return err
 	}
diff --git a/render/text.go b/render/text.go
index 2f0da10..d80e41d 100644
--- a/render/text.go
+++ b/render/text.go
@@ -101,7 +101,7 @@ func (engine *TextEngine) resetTmpl() {
 
 // LoadTemplates loads all *.tmpl files in the specified directory.
 func (engine *TextEngine) LoadTemplates(templatesDir string) error {
-	templates, err := filepath.Glob(filepath.Join(templatesDir, "*.tmpl"))
+	templates, err := templateFiles(templatesDir)
 	if err != nil {
 		return err
 	}
-- 
2.43.0

