From 452226868941b37f211887b54477d9de6572ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 01/59] fix: do not alter the caller's configuration while
 converting a document

---
 libasciidoc.go                     |  2 ++
 pkg/configuration/configuration.go | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index 91de0a4..bdb638f 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -41,6 +41,7 @@ func ConvertFile(output io.Writer, config *configuration.Configuration) (types.M
 	if err != nil {
 		return types.Metadata{}, errors.Wrapf(err, "error opening %s", config.Filename)
 	}
+	config = config.Copy() // do not alter the caller's configuration
 	config.LastUpdated = stat.ModTime()
 	return Convert(file, output, config)
 }
@@ -58,6 +59,7 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 		log.Infof("time to render     %d microseconds", endOfRender.Sub(endOfValidate).Microseconds())
 		log.Infof("total time         %d microseconds", endOfRender.Sub(start).Microseconds())
 	}()
+	config = config.Copy() // do not alter the caller's configuration
 	p, err := parser.Preprocess(source, config)
 	if err != nil {
 		return types.Metadata{}, err
diff --git a/pkg/configuration/configuration.go b/pkg/configuration/configuration.go
index 69ab6c2..3fa25b8 100644
--- a/pkg/configuration/configuration.go
+++ b/pkg/configuration/configuration.go
@@ -40,6 +40,18 @@ type Configuration struct {
 	Macros                map[string]MacroTemplate
 }
 
+// Copy returns a copy of this configuration, with attributes of its own:
+// processing a document sets attributes, which must not end up in the configuration
+// (or in the map of attributes) that the caller may use for other documents.
+func (c *Configuration) Copy() *Configuration {
+	result := *c
+	result.Attributes = make(types.Attributes, len(c.Attributes))
+	for k, v := range c.Attributes {
+		result.Attributes[k] = v
+	}
+	return &result
+}
+
 const (
 	// LastUpdatedFormat key to the time format for the `last updated` document attribute
 	LastUpdatedFormat string = "2006-01-02 15:04:05 -0700"
@@ -65,7 +77,11 @@ func WithLastUpdated(value time.Time) Setting {
 // WithAttributes function to set the `attribute overrides`
 func WithAttributes(attrs map[string]interface{}) Setting {
 	return func(config *Configuration) {
-		config.Attributes = attrs
+		// the caller's map is not modified by the other settings
+		config.Attributes = make(types.Attributes, len(attrs))
+		for k, v := range attrs {
+			config.Attributes[k] = v
+		}
 	}
 }
 
-- 
2.43.0


From 7c204eac68cd4840acc96db67f208bac4051a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 02/59] fix: report failures to read the source instead of
 converting its beginning only

---
 pkg/parser/document_preprocessing.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index d748195..3459661 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -30,7 +31,7 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 		enabled: true,
 	}
 	c := conditions{}
-	scanner := bufio.NewScanner(source)
+	scanner := newLineScanner(source)
 	t := newBlockDelimiterTracker()
 	for scanner.Scan() {
 		line := scanner.Bytes()
@@ -77,9 +78,20 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		// do not carry on with the beginning of the source only
+		return "", errors.Wrap(err, "failed to read the source")
+	}
 	return b.String(), nil
 }
 
+// newLineScanner returns a scanner of the lines of the given source, without the limit of 64KB per line
+func newLineScanner(source io.Reader) *bufio.Scanner {
+	scanner := bufio.NewScanner(source)
+	scanner.Buffer(nil, math.MaxInt32)
+	return scanner
+}
+
 type blockDelimiterTracker struct {
 	stack []blockDelimiter
 }
@@ -223,7 +235,7 @@ func contentOf(ctx *ParseContext, incl *types.FileInclusion) (string, bool, erro
 		return "", false, errors.Wrapf(err, "Unresolved directive in %s - %s", ctx.filename, incl.RawText)
 	}
 	result := &strings.Builder{}
-	scanner := bufio.NewScanner(bufio.NewReader(f))
+	scanner := newLineScanner(f)
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("reading %s", filename)
 	}
-- 
2.43.0


From fb85ec7480612daf013c39511036d0d11db0755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 03/59] fix: ignore file inclusions and attributes in regions
 excluded by a condition

---
 pkg/parser/document_preprocessing.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 3459661..4905eea 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -40,6 +40,16 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			// log.Error(err)
 			// content of line was not relevant in the context of preparsing (ie, it's a regular line), so let's keep it as-is
 			b.Write(line)
+		} else if !b.enabled {
+			// within a region which is excluded by a condition, only the (nested) conditions and their ends matter
+			switch e := element.(type) {
+			case types.ConditionalInclusion:
+				if _, ok := e.SingleLineContent(); !ok {
+					b.enabled = c.push(ctx, e)
+				}
+			case *types.EndOfCondition:
+				b.enabled = c.pop()
+			}
 		} else {
 			// if log.IsLevelEnabled(log.DebugLevel) {
 			// 	log.Debugf("checking element of type '%T'", element)
-- 
2.43.0


From 92df557d18dc1338a9c70ebe6fc6d0a74351501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 04/59] fix: do not change the working directory of the process
 while including files

---
 pkg/parser/document_preprocessing.go | 41 ++++++++--------------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 4905eea..2acf2ee 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -488,47 +488,28 @@ func readAll(scanner *bufio.Scanner, content *strings.Builder) error {
 	return nil
 }
 
+// open opens the file at the given path, which is resolved against the current working directory when it is relative.
+// The working directory does not change: it belongs to the whole process.
 func open(path string) (*os.File, string, func(), error) {
-	wd, err := os.Getwd()
+	absPath, err := filepath.Abs(path)
 	if err != nil {
 		return nil, "", func() {}, err
 	}
-	absPath, err := filepath.Abs(path)
-	if err != nil {
-		return nil, "", func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
-	}
-	dir := filepath.Dir(absPath)
-	// TODO: we could skip the Chdir part if we retain the absPath in the context,
-	// and use `filepath.Join` to compute the abspath of the file to include
-	if err = os.Chdir(dir); err != nil {
-		return nil, "", func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+	// a missing directory is reported as such
+	if _, err := os.Stat(filepath.Dir(absPath)); err != nil {
+		var e *os.PathError
+		if errors.As(err, &e) {
+			err = &os.PathError{Op: "chdir", Path: e.Path, Err: e.Err}
+		}
+		return nil, absPath, func() {}, err
 	}
 	// read the file per-se
 	// log.Debugf("opening '%s'", absPath)
 	f, err := os.Open(absPath)
 	if err != nil {
-		return nil, absPath, func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+		return nil, absPath, func() {}, err
 	}
 	return f, absPath, func() {
-		log.Debugf("restoring current working dir to: %s", wd)
-		if err := os.Chdir(wd); err != nil { // restore the previous working directory
-			log.WithError(err).Error("failed to restore previous working directory")
-		}
 		if err := f.Close(); err != nil {
 			log.WithError(err).Errorf("failed to close file '%s'", absPath)
 		}
-- 
2.43.0


From d390db638179e1711f2f385bd409b2a7d4a35b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 05/59] fix: limit the depth of nested file inclusions

---
 pkg/parser/context.go                | 2 ++
 pkg/parser/document_preprocessing.go | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index 350500f..b5bcc07 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -13,6 +13,7 @@ type ParseContext struct {
 	filename     string
 	opts         []Option
 	levelOffsets levelOffsets
+	includeDepth int // number of file inclusions which led to the current source
 	attributes   *contextAttributes
 	userMacros   map[string]configuration.MacroTemplate
 	counters     map[string]interface{}
@@ -45,6 +46,7 @@ func (c *ParseContext) Clone() *ParseContext {
 		filename:     c.filename,
 		opts:         options(c.opts).clone(),
 		levelOffsets: c.levelOffsets.clone(),
+		includeDepth: c.includeDepth,
 		attributes:   c.attributes.clone(),
 		userMacros:   c.userMacros,
 		counters:     c.counters,
diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 2acf2ee..4db2265 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -135,6 +135,10 @@ func (t *blockDelimiterTracker) withinDelimitedBlock() Option {
 	return GlobalStore(withinDelimitedBlockKey, len(t.stack) > 0)
 }
 
+// maxIncludeDepth the maximum depth of nested file inclusions (same default value as in Asciidoctor).
+// Without such a limit, files which include each other would be processed endlessly.
+const maxIncludeDepth = 64
+
 // replace the content of this FileInclusion element the content of the target file
 // note: there is a trade-off here: we include the whole content of the file in the current
 // fragment, making it potentially big, but at the same time we ensure that the context
@@ -148,6 +152,9 @@ func includeFile(ctx *ParseContext, incl *types.FileInclusion) (string, error) {
 		}
 		incl.GetLocation().SetPath(l)
 	}
+	if ctx.includeDepth >= maxIncludeDepth {
+		return "", errors.Errorf("Unresolved directive in %s - %s: maximum include depth of %d exceeded", ctx.filename, incl.RawText, maxIncludeDepth)
+	}
 	content, adoc, err := contentOf(ctx, incl)
 	if err != nil {
 		return "", err
@@ -156,6 +163,7 @@ func includeFile(ctx *ParseContext, incl *types.FileInclusion) (string, error) {
 		return string(content), nil
 	}
 	ctx.opts = append(ctx.opts, sectionEnabled())
+	ctx.includeDepth++
 	return preprocess(ctx, strings.NewReader(content))
 }
 
-- 
2.43.0


From a581206198737b88090ff98bf75e316d39f30915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 06/59] fix: do not crash when a tag is closed but not opened
 in a file to include

---
 pkg/parser/document_preprocessing.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 4db2265..f59184f 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -439,7 +439,11 @@ func readWithinTags(path string, scanner *bufio.Scanner, content *strings.Builde
 			}
 		}
 		if endTag, ok := fl.GetEndTag(); ok {
-			currentRanges[endTag.Value].EndLine = lineNumber
+			if r, found := currentRanges[endTag.Value]; found {
+				r.EndLine = lineNumber
+			} else {
+				log.Warnf("detected unexpected end of tag '%s' at line %d of include file: %s", endTag.Value, lineNumber, path)
+			}
 		}
 		if expectedRanges.Match(lineNumber, currentRanges) && !fl.HasTag() {
 			_, err := content.Write(scanner.Bytes())
-- 
2.43.0


From 46b79ec9e2572116c4bb166904a0f89f7c0b3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 07/59] fix: use the modification time of the file which is
 converted

---
 libasciidoc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index bdb638f..08d583f 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -37,7 +37,7 @@ func ConvertFile(output io.Writer, config *configuration.Configuration) (types.M
 	}
 	defer file.Close()
 	// use the file mtime as the `last updated` value
-	stat, err := os.Stat(config.Filename)
+	stat, err := file.Stat() // of the very file which is converted, even if another one takes its place meanwhile
 	if err != nil {
 		return types.Metadata{}, errors.Wrapf(err, "error opening %s", config.Filename)
 	}
-- 
2.43.0


From 158b18c36c4ebad6ad3ab7c16261f8395f0e3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 08/59] fix: do not let the order of attributes decide which
 substitutions apply

---
 pkg/parser/document_processing_apply_substitutions.go | 4 +++-
 pkg/parser/document_substitutions.go                  | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 61a53e0..ba03a76 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -315,7 +315,9 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 			}
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
-			// same as above, but do not allow for inline macros (eg: links)
+			// same as above, but do not allow for inline macros (eg: links).
+			// (with other substitutions, since `subs` also applies to the other attributes and elements)
+			subs := subs.clone()
 			if err := subs.remove(Macros); err != nil {
 				return err
 			}
diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 53a38ad..f2bd2ce 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -192,6 +192,12 @@ func (s *substitutions) split() (*substitutions, *substitutions) {
 	return phase1, phase2
 }
 
+func (s *substitutions) clone() *substitutions {
+	return &substitutions{
+		sequence: append([]string{}, s.sequence...),
+	}
+}
+
 func (s *substitutions) contains(expected string) bool {
 	for _, sub := range s.sequence {
 		if sub == expected {
-- 
2.43.0


From 972d32d4c945a27ada9d2527f36abe57d79d03c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 09/59] fix: do not crash on manpages without a valid 'Name'
 section

---
 pkg/renderer/sgml/sgml.go  | 26 ++++++++++++++++++++++++--
 pkg/validator/validator.go | 29 +++++++++++++++++++----------
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 04a604b..75fba1b 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -244,7 +244,13 @@ func (r *sgmlRenderer) splitAndRenderForArticle(ctx *context, doc *types.Documen
 func (r *sgmlRenderer) splitAndRenderForManpage(ctx *context, doc *types.Document) (string, string, error) {
 	log.Debugf("rendering manpage (within HTML/Body: %t)", ctx.config.WrapInHTMLBodyElement)
 	elements := doc.BodyElements()
-	nameSection := elements[0].(*types.Section) // TODO: enforce
+	nameSection, ok := lookupManpageNameSection(elements)
+	if !ok {
+		// eg: when the doctype is set in the document, after a validation as an `article`
+		log.Warn("changing doctype to 'article' because the 'Name' section with a single paragraph is missing at the beginning of the manpage")
+		ctx.attributes[types.AttrDocType] = "article"
+		return r.splitAndRenderForArticle(ctx, doc)
+	}
 	if ctx.config.WrapInHTMLBodyElement {
 		header, _ := doc.Header()
 		renderedHeader, err := r.renderManpageHeader(ctx, header, nameSection)
@@ -272,6 +278,19 @@ func (r *sgmlRenderer) splitAndRenderForManpage(ctx *context, doc *types.Documen
 	return "", result.String(), nil
 }
 
+// lookupManpageNameSection returns the first element if it is a section with a single paragraph
+func lookupManpageNameSection(elements []interface{}) (*types.Section, bool) {
+	if len(elements) == 0 {
+		return nil, false
+	}
+	s, ok := elements[0].(*types.Section)
+	if !ok || len(s.Elements) != 1 {
+		return nil, false
+	}
+	_, ok = s.Elements[0].(*types.Paragraph)
+	return s, ok
+}
+
 func (r *sgmlRenderer) renderDocumentRoles(ctx *context, doc *types.Document) (string, error) {
 	if header, _ := doc.Header(); header != nil {
 		return r.renderElementRoles(ctx, header.Attributes)
@@ -356,7 +375,10 @@ func (r *sgmlRenderer) renderManpageHeader(ctx *context, header *types.DocumentH
 	if err != nil {
 		return "", err
 	}
-	description := nameSection.Elements[0].(*types.Paragraph) // TODO: type check
+	description, ok := nameSection.Elements[0].(*types.Paragraph)
+	if !ok {
+		return "", errors.Errorf("unexpected type of element in the 'Name' section of the manpage: '%T'", nameSection.Elements[0])
+	}
 	if description.Attributes == nil {
 		description.Attributes = types.Attributes{}
 	}
diff --git a/pkg/validator/validator.go b/pkg/validator/validator.go
index b706076..32655bc 100644
--- a/pkg/validator/validator.go
+++ b/pkg/validator/validator.go
@@ -49,17 +49,17 @@ func validateManpage(doc *types.Document) []Problem {
 		})
 	}
 	elements := doc.BodyElements()
-	if nameSection, ok := assertThatElement(elements[0]).isSection(withLevel(1), withTitle("name")); !ok {
+	if nameSection, ok := assertThatElements(elements).at(0).isSection(withLevel(1), withTitle("name")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Name' section",
 		})
-	} else if ok := assertThatElements(nameSection.Elements).haveCount(1); !ok {
+	} else if ok := assertThatElements(nameSection.Elements).haveCount(1) && assertThatElements(nameSection.Elements).at(0).isParagraph(); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "'Name' section should contain a single paragraph",
 		})
-	} else if _, ok := assertThatElement(elements[1]).isSection(withLevel(1), withTitle("synopsis")); !ok {
+	} else if _, ok := assertThatElements(elements).at(1).isSection(withLevel(1), withTitle("synopsis")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Synopsis' section",
@@ -68,13 +68,7 @@ func validateManpage(doc *types.Document) []Problem {
 	return problems
 }
 
-// assert performs a set of assertions on a given element
-func assertThatElement(element interface{}) elementAssertion {
-	return elementAssertion{
-		element: element,
-	}
-}
-
+// elementAssertion performs a set of assertions on a given element
 type elementAssertion struct {
 	element interface{}
 }
@@ -91,6 +85,11 @@ func (e elementAssertion) isSection(assertions ...sectionAssertion) (*types.Sect
 	return s, match
 }
 
+func (e elementAssertion) isParagraph() bool {
+	_, ok := e.element.(*types.Paragraph)
+	return ok
+}
+
 type sectionAssertion func(s *types.Section) bool
 
 func withTitle(title string) sectionAssertion {
@@ -123,3 +122,13 @@ type elementsAssertion struct {
 func (e elementsAssertion) haveCount(count int) bool {
 	return len(e.elements) == count
 }
+
+// at returns the assertions on the element at the given index (which may not exist)
+func (e elementsAssertion) at(index int) elementAssertion {
+	if index >= len(e.elements) {
+		return elementAssertion{}
+	}
+	return elementAssertion{
+		element: e.elements[index],
+	}
+}
-- 
2.43.0


From d4affd9f38c539b68752c4f33e64a6f24f0f6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 10/59] fix: do not crash on tables with a header and a footer
 but too few rows

---
 pkg/types/types.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index d75f6d7..6691463 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3841,17 +3841,22 @@ func (t *Table) SetColumnDefinitions(cols []interface{}) {
 			size += c.Multiplier
 		}
 	}
+	if size == 0 {
+		// no usable column definition (eg: `0*`)
+		return
+	}
 	log.Debugf("re-organizing table in rows of %d cells", size)
 	// reorganize rows/columns
 
 	rows, header, footer := t.rows()
 	t.Rows = organizeTableCells(rows, size)
-	// restore header and footer
-	if header || t.Attributes.HasOption("header") {
+	// restore header and footer (as long as there are enough rows)
+	t.Header, t.Footer = nil, nil
+	if len(t.Rows) > 0 && (header || t.Attributes.HasOption("header")) {
 		t.Header = t.Rows[0]
 		t.Rows = t.Rows[1:]
 	}
-	if footer || t.Attributes.HasOption("footer") {
+	if len(t.Rows) > 0 && (footer || t.Attributes.HasOption("footer")) {
 		t.Footer = t.Rows[len(t.Rows)-1]
 		t.Rows = t.Rows[:len(t.Rows)-1]
 	}
-- 
2.43.0


From 72effe55b58e99eca92f70d7a47135e8cc95ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 11/59] fix: do not crash on tables with a header or a footer
 only

---
 pkg/types/types.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 6691463..31fd088 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -4013,8 +4013,8 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 	}
 	// add empty entries if the first row has more cells than the number of column than what's specified in the `cols` attribute
 	// (also works when the `cols` attribute is missing/empty)
-	if len(t.Rows) > 0 && len(t.Rows[0].Cells) > len(result) {
-		m := len(t.Rows[0].Cells) - len(result)
+	if r := t.firstRow(); r != nil && len(r.Cells) > len(result) {
+		m := len(r.Cells) - len(result)
 		for i := 0; i < m; i++ {
 			col := newDefaultTableColumn()
 			result = append(result, col)
@@ -4060,6 +4060,18 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 	return result, nil
 }
 
+// firstRow returns the first row of the body, or the header or the footer of a table without a body
+func (t *Table) firstRow() *TableRow {
+	switch {
+	case len(t.Rows) > 0:
+		return t.Rows[0]
+	case t.Header != nil:
+		return t.Header
+	default:
+		return t.Footer
+	}
+}
+
 // TableRow a table line is made of columns, each column being a group of []interface{} (to support quoted text, etc.)
 type TableRow struct {
 	Cells []*TableCell
-- 
2.43.0


From f3b1b85e3011d4a36a3e287975d69611feb01591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 12/59] fix: do not overwrite the source, nor ignore errors on
 the output file in the command

---
 cmd/libasciidoc/root_cmd.go | 73 +++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 27 deletions(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 27a188b..b851afe 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -53,24 +53,32 @@ func NewRootCmd() *cobra.Command {
 				defer pkgprofile.Start(pkgprofile.CPUProfile).Stop()
 			}
 			attrs := parseAttributes(attributes)
+			var skipped error
 			for _, sourcePath := range args {
-				out, close := getOut(cmd, sourcePath, outputName)
-				if out != nil {
-					defer close() //nolint:errcheck
-					// log.Debugf("Starting to process file %v", path)
-					config := configuration.NewConfiguration(
-						configuration.WithFilename(sourcePath),
-						configuration.WithAttributes(attrs),
-						configuration.WithCSS(css),
-						configuration.WithBackEnd(backend),
-						configuration.WithHeaderFooter(!noHeaderFooter))
-					_, err := libasciidoc.ConvertFile(out, config)
-					if err != nil {
-						return err
-					}
+				out, close, err := getOut(cmd, sourcePath, outputName)
+				if err != nil {
+					// carry on with the other files, but do not pretend that everything went well
+					log.Warnf("Cannot create output file - %v, skipping", err)
+					skipped = err
+					continue
+				}
+				// log.Debugf("Starting to process file %v", path)
+				config := configuration.NewConfiguration(
+					configuration.WithFilename(sourcePath),
+					configuration.WithAttributes(attrs),
+					configuration.WithCSS(css),
+					configuration.WithBackEnd(backend),
+					configuration.WithHeaderFooter(!noHeaderFooter))
+				_, err = libasciidoc.ConvertFile(out, config)
+				// the content may reach the output file when it is closed only
+				if closeErr := close(); err == nil {
+					err = closeErr
+				}
+				if err != nil {
+					return err
 				}
 			}
-			return nil
+			return skipped
 		},
 	}
 	rootCmd.SilenceUsage = true
@@ -97,29 +105,40 @@ func newCloseFileFunc(c io.Closer) closeFunc {
 	}
 }
 
-func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, closeFunc) {
+func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, closeFunc, error) {
 	if outputName == "-" {
 		// outfile is STDOUT
-		return cmd.OutOrStdout(), defaultCloseFunc()
+		return cmd.OutOrStdout(), defaultCloseFunc(), nil
 	} else if outputName != "" {
 		// outfile is specified in the command line
-		outfile, e := os.Create(outputName)
-		if e != nil {
-			log.Warnf("Cannot create output file - %v, skipping", outputName)
-		}
-		return outfile, newCloseFileFunc(outfile)
+		return createOut(sourcePath, outputName)
 	} else if sourcePath != "" {
 		// outfile is based on sourcePath
 		path, _ := filepath.Abs(sourcePath)
 		outname := strings.TrimSuffix(path, filepath.Ext(path)) + ".html"
-		outfile, err := os.Create(outname)
+		return createOut(sourcePath, outname)
+	}
+	return cmd.OutOrStdout(), defaultCloseFunc(), nil
+}
+
+// createOut creates the output file, unless it would overwrite the source
+func createOut(sourcePath, outname string) (io.Writer, closeFunc, error) {
+	if out, err := os.Stat(outname); err == nil {
+		source, err := os.Stat(sourcePath)
 		if err != nil {
-			log.Warnf("Cannot create output file - %v, skipping", outname)
-			return nil, nil
+			return nil, nil, err
 		}
-		return outfile, newCloseFileFunc(outfile)
+		if os.SameFile(source, out) {
+			return nil, nil, fmt.Errorf("output file '%s' is the source file", outname)
+		}
+	} else if !os.IsNotExist(err) {
+		return nil, nil, err
+	}
+	outfile, err := os.Create(outname)
+	if err != nil {
+		return nil, nil, err
 	}
-	return cmd.OutOrStdout(), defaultCloseFunc()
+	return outfile, newCloseFileFunc(outfile), nil
 }
 
 // converts the `name`, `!name` and `name=value` into a map
-- 
2.43.0


From 3cca15c6ac8e1ed636f113ab38bcefa11a58b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 13/59] fix: render structured titles instead of their
 addresses in memory

---
 pkg/renderer/sgml/icon.go | 10 +++++++++-
 pkg/types/types.go        |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index fa5eab5..408c41d 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -81,7 +81,15 @@ func (r *sgmlRenderer) renderIcon(ctx *context, icon types.Icon, admonition bool
 		// Inline icons use the alt attribute, and may optionally carry a title.
 		// The alt is the icon class name unless overridden.  They don't use the caption at all.
 		alt = icon.Attributes.GetAsStringWithDefault(types.AttrImageAlt, alt)
-		title = icon.Attributes.GetAsStringWithDefault(types.AttrTitle, "")
+		switch t := icon.Attributes[types.AttrTitle].(type) {
+		case []interface{}: // structured content
+			var err error
+			if title, err = RenderPlainText(t); err != nil {
+				return "", err
+			}
+		default:
+			title = icon.Attributes.GetAsStringWithDefault(types.AttrTitle, "")
+		}
 	}
 	s := &strings.Builder{}
 	if err := tmpl.Execute(s, struct {
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 31fd088..80f7da9 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2049,8 +2049,8 @@ var _ Referencable = &ImageBlock{}
 
 func (i *ImageBlock) Reference(refs ElementReferences) {
 	id := i.Attributes.GetAsStringWithDefault(AttrID, "")
-	title := i.Attributes.GetAsStringWithDefault(AttrTitle, "")
-	if id != "" && title != "" {
+	title := i.Attributes[AttrTitle] // may be structured content
+	if id != "" && title != nil {
 		refs[id] = title
 	}
 }
-- 
2.43.0


From 4340652b0b8a37880803c43d891168bfa1e2f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 14/59] fix: do not crash on special characters in verse
 paragraphs

---
 pkg/renderer/sgml/render_plain_text.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 9a9c4fd..ff318d8 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -30,7 +30,9 @@ func WithoutEscape() Option {
 }
 
 func RenderParagraphElements(p *types.Paragraph) (string, error) {
-	r := &plaintextRenderer{}
+	r := &plaintextRenderer{
+		escape: escapeString,
+	}
 	buf := &strings.Builder{}
 	for _, e := range p.Elements {
 		renderedElement, err := r.render(e)
-- 
2.43.0


From 2229e34f348fdca5a15977935c132b914932eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 15/59] fix: do not fail on references to attributes without a
 textual value

---
 pkg/parser/document_processing_apply_substitutions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index ba03a76..bd2a84f 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -556,6 +556,10 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 		return "{" + a.Name + "}", false, nil
 	}
 	switch v := v.(type) {
+	case nil: // attribute without a value
+		return "", true, nil
+	case int, int64, uint64, float64, bool: // scalar value of the front-matter
+		return fmt.Sprint(v), true, nil
 	case []interface{}:
 		s, err := sgml.RenderPlainText(v)
 		return s, true, err
-- 
2.43.0


From 3c6470a06f2502be0f6ceb8f06fc24516d5383d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 16/59] fix: attributes of the configuration take precedence
 while rendering, too

---
 pkg/renderer/sgml/context.go  | 30 +++++++++++++++++++++++++-----
 pkg/renderer/sgml/elements.go |  8 +++++---
 pkg/renderer/sgml/sgml.go     | 10 +++++-----
 pkg/types/types.go            | 20 +++++++++++++++-----
 4 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index e284204..866c85d 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -13,6 +13,7 @@ type context struct {
 	withinList           int
 	counters             map[string]int
 	attributes           types.Attributes
+	immutableAttributes  types.Attributes // set in the configuration: the document cannot change them
 	elementReferences    types.ElementReferences
 	hasHeader            bool
 	sectionNumbering     types.SectionNumbers
@@ -22,11 +23,12 @@ type context struct {
 func newContext(doc *types.Document, config *configuration.Configuration) *context {
 	header, _ := doc.Header()
 	ctx := &context{
-		config:            config,
-		counters:          make(map[string]int),
-		attributes:        config.Attributes,
-		elementReferences: doc.ElementReferences,
-		hasHeader:         header != nil,
+		config:              config,
+		counters:            make(map[string]int),
+		attributes:          types.Attributes{},
+		immutableAttributes: config.Attributes,
+		elementReferences:   doc.ElementReferences,
+		hasHeader:           header != nil,
 	}
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
 	ctx.attributes[types.AttrFigureCaption] = "Figure"
@@ -44,9 +46,27 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 
 		}
 	}
+	// attributes of the configuration take precedence
+	for name, value := range config.Attributes {
+		ctx.attributes[name] = value
+	}
 	return ctx
 }
 
+// setAttribute sets the attribute declared in the document, unless it was set in the configuration
+func (ctx *context) setAttribute(name string, value interface{}) {
+	if _, found := ctx.immutableAttributes[name]; !found {
+		ctx.attributes[name] = value
+	}
+}
+
+// unsetAttribute unsets the attribute reset in the document, unless it was set in the configuration
+func (ctx *context) unsetAttribute(name string) {
+	if _, found := ctx.immutableAttributes[name]; !found {
+		delete(ctx.attributes, name)
+	}
+}
+
 func (ctx *context) UseUnicode() bool {
 	return ctx.attributes.GetAsBoolWithDefault(types.AttrUnicode, true)
 }
diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index c03a25e..e195763 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -103,13 +103,15 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 	case *types.PredefinedAttribute:
 		return r.renderPredefinedAttribute(e)
 	case *types.AttributeDeclaration:
-		ctx.attributes[e.Name] = e.Value
+		ctx.setAttribute(e.Name, e.Value)
 		return "", nil
 	case *types.AttributeReset:
-		delete(ctx.attributes, e.Name)
+		ctx.unsetAttribute(e.Name)
 		return "", nil
 	case *types.FrontMatter:
-		ctx.attributes.AddAll(e.Attributes)
+		for name, value := range e.Attributes {
+			ctx.setAttribute(name, value)
+		}
 		return "", nil
 	default:
 		return "", errors.Errorf("unsupported type of element: %T", element)
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 75fba1b..c510a13 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -53,9 +53,9 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 		for _, e := range header.Elements {
 			switch e := e.(type) {
 			case *types.AttributeDeclaration:
-				ctx.attributes[e.Name] = e.Value
+				ctx.setAttribute(e.Name, e.Value)
 			case *types.AttributeReset:
-				delete(ctx.attributes, e.Name)
+				ctx.unsetAttribute(e.Name)
 			}
 		}
 	}
@@ -64,14 +64,14 @@ elements:
 	for _, e := range doc.Elements {
 		switch e := e.(type) {
 		case *types.AttributeDeclaration:
-			ctx.attributes[e.Name] = e.Value
+			ctx.setAttribute(e.Name, e.Value)
 		case *types.AttributeReset:
-			delete(ctx.attributes, e.Name)
+			ctx.unsetAttribute(e.Name)
 		default:
 			break elements
 		}
 	}
-	if ctx.sectionNumbering, err = doc.SectionNumbers(); err != nil {
+	if ctx.sectionNumbering, err = doc.SectionNumbersWithAttributes(ctx.immutableAttributes); err != nil {
 		return metadata, errors.Wrapf(err, "unable to render full document")
 	}
 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 80f7da9..1445f7b 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -151,19 +151,29 @@ func (d *Document) AddElement(element interface{}) error {
 type SectionNumbers map[string]string // assigned number by section id
 
 func (d *Document) SectionNumbers() (SectionNumbers, error) {
+	return d.SectionNumbersWithAttributes(nil)
+}
+
+// SectionNumbersWithAttributes is like `SectionNumbers`, but the given attributes (ie, those of the configuration)
+// take precedence over the declarations and resets in the document
+func (d *Document) SectionNumbersWithAttributes(attrs Attributes) (SectionNumbers, error) {
+	if attrs.Has(AttrSectionNumbering) || attrs.Has(AttrNumbered) {
+		numbers, _, err := traverseElements(d.Elements, true, true, "")
+		return numbers, err
+	}
 	enabled := false
 	if header, _ := d.Header(); header != nil {
 		// lookup the `sectnums` or `numbered` attribute in the header
 		var err error
-		if _, enabled, err = traverseElements(header.Elements, false, ""); err != nil {
+		if _, enabled, err = traverseElements(header.Elements, false, false, ""); err != nil {
 			return nil, err
 		}
 	}
-	numbers, _, err := traverseElements(d.Elements, enabled, "") // disabled by default
+	numbers, _, err := traverseElements(d.Elements, enabled, false, "") // disabled by default
 	return numbers, err
 }
 
-func traverseElements(elements []interface{}, enabled bool, prefix string) (map[string]string, bool, error) {
+func traverseElements(elements []interface{}, enabled, immutable bool, prefix string) (map[string]string, bool, error) {
 	result := map[string]string{}
 	counter := 0
 	for _, e := range elements {
@@ -174,7 +184,7 @@ func traverseElements(elements []interface{}, enabled bool, prefix string) (map[
 			}
 		case *AttributeReset:
 			if e.Name == AttrSectionNumbering || e.Name == AttrNumbered {
-				enabled = false
+				enabled = immutable
 			}
 		case *Section:
 			var n string
@@ -184,7 +194,7 @@ func traverseElements(elements []interface{}, enabled bool, prefix string) (map[
 				n = prefix + strconv.Itoa(counter)
 				result[id] = n
 			}
-			numbers, en, err := traverseElements(e.Elements, enabled, n+".")
+			numbers, en, err := traverseElements(e.Elements, enabled, immutable, n+".")
 			if err != nil {
 				return nil, false, err
 			}
-- 
2.43.0


From c583236f8e7d9110b5490f6282da0808abdb4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 17/59] fix: number the sections after a 'sectnums' attribute
 in the preamble

---
 pkg/types/types.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 1445f7b..24a4fe0 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -186,6 +186,13 @@ func traverseElements(elements []interface{}, enabled, immutable bool, prefix st
 			if e.Name == AttrSectionNumbering || e.Name == AttrNumbered {
 				enabled = immutable
 			}
+		case *Preamble:
+			// may contain attribute declarations and resets
+			_, en, err := traverseElements(e.Elements, enabled, immutable, "")
+			if err != nil {
+				return nil, false, err
+			}
+			enabled = en
 		case *Section:
 			var n string
 			if enabled {
-- 
2.43.0


From de8fe6d32c40c155ddab2118bdf6cd2c519c6950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 18/59] fix: conditions take the attributes declared in
 included files into account

---
 pkg/parser/document_preprocessing.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index f59184f..c27766d 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -64,10 +64,13 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			case *types.RawSection:
 				b.WriteString(ctx.levelOffsets.apply(e))
 			case *types.FileInclusion:
-				f, err := includeFile(ctx.Clone(), e)
+				child := ctx.Clone()
+				f, err := includeFile(child, e)
 				if err != nil {
 					return "", err
 				}
+				// attributes declared in the included file apply to the lines after the inclusion, too
+				ctx.attributes = child.attributes
 				b.WriteString(f)
 			case *types.BlockDelimiter:
 				t.track(e.Kind, e.Length)
-- 
2.43.0


From d151ed83638ea545c2bf5cc0e4655d686b8e4301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 19/59] fix: conditions ignore the attribute declarations
 within verbatim blocks

---
 pkg/parser/document_preprocessing.go | 34 ++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index c27766d..1932f7b 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -56,10 +56,14 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			// }
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
-				ctx.attributes.set(e.Name, e.Value)
+				if !t.withinVerbatimBlock() {
+					ctx.attributes.set(e.Name, e.Value)
+				}
 				b.WriteString(e.RawText())
 			case *types.AttributeReset:
-				ctx.attributes.unset(e.Name)
+				if !t.withinVerbatimBlock() {
+					ctx.attributes.unset(e.Name)
+				}
 				b.WriteString(e.RawText())
 			case *types.RawSection:
 				b.WriteString(ctx.levelOffsets.apply(e))
@@ -70,10 +74,16 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 					return "", err
 				}
 				// attributes declared in the included file apply to the lines after the inclusion, too
-				ctx.attributes = child.attributes
+				if !t.withinVerbatimBlock() {
+					ctx.attributes = child.attributes
+				}
 				b.WriteString(f)
 			case *types.BlockDelimiter:
-				t.track(e.Kind, e.Length)
+				kind := e.Kind
+				if strings.HasPrefix(e.RawText(), "....") {
+					kind = types.Literal // not to be confused with a delimiter of a listing block
+				}
+				t.track(kind, e.Length)
 				ctx.opts = append(ctx.opts, t.withinDelimitedBlock())
 				b.WriteString(e.RawText())
 			case types.ConditionalInclusion:
@@ -125,6 +135,8 @@ func (t *blockDelimiterTracker) track(kind string, length int) {
 	case len(t.stack) > 0 && t.stack[len(t.stack)-1].kind == kind && t.stack[len(t.stack)-1].length == length:
 		// pop
 		t.stack = t.stack[:len(t.stack)-1]
+	case t.withinVerbatimBlock():
+		// not a delimiter but a line of the content of the current block
 	default:
 		// push
 		t.stack = append(t.stack, blockDelimiter{
@@ -134,6 +146,20 @@ func (t *blockDelimiterTracker) track(kind string, length int) {
 	}
 }
 
+// withinVerbatimBlock checks if the current line is in a block whose content is not parsed,
+// ie, in which there cannot be an attribute declaration, nor another delimited block
+func (t *blockDelimiterTracker) withinVerbatimBlock() bool {
+	if len(t.stack) == 0 {
+		return false
+	}
+	switch t.stack[len(t.stack)-1].kind {
+	case types.Comment, types.Fenced, types.Listing, types.Literal, types.Passthrough:
+		return true
+	default:
+		return false
+	}
+}
+
 func (t *blockDelimiterTracker) withinDelimitedBlock() Option {
 	return GlobalStore(withinDelimitedBlockKey, len(t.stack) > 0)
 }
-- 
2.43.0


From 1925f454cb57de449082c5c48d813d2e7b3bc61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 20/59] fix: do not crash on document authors without a name

---
 pkg/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 24a4fe0..82d5457 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -507,7 +507,9 @@ type DocumentAuthor struct {
 
 // NewDocumentAuthor initializes a new DocumentAuthor
 func NewDocumentAuthor(fullName, email interface{}) (*DocumentAuthor, error) {
-	author := &DocumentAuthor{}
+	author := &DocumentAuthor{
+		DocumentAuthorFullName: &DocumentAuthorFullName{}, // may remain empty if there is only an email
+	}
 	if fullName, ok := fullName.(*DocumentAuthorFullName); ok {
 		author.DocumentAuthorFullName = fullName
 	}
-- 
2.43.0


From 8d3a12d4717d30f7b225343c5eb3d4205f7151ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 21/59] fix: do not crash on titles with a cross reference to
 themselves

---
 pkg/renderer/sgml/context.go         | 2 ++
 pkg/renderer/sgml/cross_reference.go | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 866c85d..67ac940 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -15,6 +15,7 @@ type context struct {
 	attributes           types.Attributes
 	immutableAttributes  types.Attributes // set in the configuration: the document cannot change them
 	elementReferences    types.ElementReferences
+	resolvingXrefs       map[string]bool // the IDs of the cross references whose label is being rendered
 	hasHeader            bool
 	sectionNumbering     types.SectionNumbers
 }
@@ -28,6 +29,7 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		attributes:          types.Attributes{},
 		immutableAttributes: config.Attributes,
 		elementReferences:   doc.ElementReferences,
+		resolvingXrefs:      map[string]bool{},
 		hasHeader:           header != nil,
 	}
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index bfaa767..3976e09 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -22,7 +22,10 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 	}
 	if xrefLabel, ok := xref.Label.(string); ok {
 		label = xrefLabel
-	} else if target, found := ctx.elementReferences[xrefID]; found {
+	} else if target, found := ctx.elementReferences[xrefID]; found && !ctx.resolvingXrefs[xrefID] {
+		// the title of the target may contain a reference to the target itself, even if indirectly
+		ctx.resolvingXrefs[xrefID] = true
+		defer delete(ctx.resolvingXrefs, xrefID)
 		switch t := target.(type) {
 		case string:
 			label = t
-- 
2.43.0


From c98a3956c5d1bfa68c5bba13ebfc7a76b55c10bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 22/59] fix: number the example blocks in the order of their
 titles

---
 pkg/renderer/sgml/delimited_block_example.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index d0f5be7..5e84312 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -13,14 +13,7 @@ import (
 func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
 	// default, example block
 	number := 0
-	content, err := r.renderElements(ctx, b.Elements)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render example block content")
-	}
-	roles, err := r.renderElementRoles(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render example block roles")
-	}
+	// the number must be determined before the content is rendered, since the latter may have (numbered) examples, too
 	c, found := b.Attributes.GetAsString(types.AttrCaption)
 	if !found {
 		c, found = ctx.attributes.GetAsString(types.AttrExampleCaption)
@@ -29,10 +22,18 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 		}
 	}
 	// TODO: Replace this hack when we have attribute substitution fully working
-	if strings.Contains(c, "{counter:example-number}") {
+	if b.Attributes.Has(types.AttrTitle) && strings.Contains(c, "{counter:example-number}") {
 		number = ctx.GetAndIncrementExampleBlockCounter()
 		c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
 	}
+	content, err := r.renderElements(ctx, b.Elements)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render example block content")
+	}
+	roles, err := r.renderElementRoles(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render example block roles")
+	}
 	title, err := r.renderElementTitle(ctx, b.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block title")
-- 
2.43.0


From 8ed4b7d7800c6dd5940cf544ffabb5b5d0caf1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 23/59] fix: render structured attribute values instead of
 their addresses in memory

---
 pkg/renderer/sgml/elements.go | 19 +++++++++++++++++--
 pkg/renderer/sgml/sgml.go     |  8 ++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index e195763..226ab53 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -103,8 +103,7 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 	case *types.PredefinedAttribute:
 		return r.renderPredefinedAttribute(e)
 	case *types.AttributeDeclaration:
-		ctx.setAttribute(e.Name, e.Value)
-		return "", nil
+		return "", r.declareAttribute(ctx, e)
 	case *types.AttributeReset:
 		ctx.unsetAttribute(e.Name)
 		return "", nil
@@ -117,3 +116,19 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 		return "", errors.Errorf("unsupported type of element: %T", element)
 	}
 }
+
+// declareAttribute sets the attribute declared in the document in the given context
+func (r *sgmlRenderer) declareAttribute(ctx *context, d *types.AttributeDeclaration) error {
+	elements, ok := d.Value.([]interface{})
+	if !ok {
+		ctx.setAttribute(d.Name, d.Value)
+		return nil
+	}
+	// eg, if the value has special characters
+	value, err := r.renderInlineElements(ctx, elements)
+	if err != nil {
+		return errors.Wrapf(err, "unable to render the value of attribute '%s'", d.Name)
+	}
+	ctx.setAttribute(d.Name, value)
+	return nil
+}
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index c510a13..e8d99b6 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -53,7 +53,9 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 		for _, e := range header.Elements {
 			switch e := e.(type) {
 			case *types.AttributeDeclaration:
-				ctx.setAttribute(e.Name, e.Value)
+				if err := r.declareAttribute(ctx, e); err != nil {
+					return metadata, errors.Wrapf(err, "unable to render full document")
+				}
 			case *types.AttributeReset:
 				ctx.unsetAttribute(e.Name)
 			}
@@ -64,7 +66,9 @@ elements:
 	for _, e := range doc.Elements {
 		switch e := e.(type) {
 		case *types.AttributeDeclaration:
-			ctx.setAttribute(e.Name, e.Value)
+			if err := r.declareAttribute(ctx, e); err != nil {
+				return metadata, errors.Wrapf(err, "unable to render full document")
+			}
 		case *types.AttributeReset:
 			ctx.unsetAttribute(e.Name)
 		default:
-- 
2.43.0


From 23b37ed5907392c6f2f83970e2728a62e9c1366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 24/59] fix: substitute the attributes and counters within
 footnotes

---
 pkg/parser/document_processing_apply_substitutions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index bd2a84f..12baf15 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -491,6 +491,12 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 			if err := e.SetElements(elmts); err != nil {
 				return nil, err
 			}
+		case *types.Footnote: // in the content of the footnote
+			elmts, err := replaceAttributeRefsInElementsAndReparse(ctx, e.Elements, subs, opts...)
+			if err != nil {
+				return nil, err
+			}
+			e.Elements = elmts
 		case types.WithLocation: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
-- 
2.43.0


From f34787bc9f44ff3dbb160fc1e529a35c5160ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 25/59] fix: arrange the lists in delimited blocks attached to
 list elements

---
 pkg/parser/document_processing_arrange_lists.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 06681a6..c7139a2 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -83,6 +83,12 @@ content:
 		// if log.IsLevelEnabled(log.DebugLevel) {
 		// 	log.Debugf("arranging element of type '%T'", element)
 		// }
+		if c, ok := element.(*types.ListContinuation); ok {
+			// also arrange the lists within the attached delimited blocks
+			if _, err := arrangeListElements([]interface{}{c.Element}); err != nil {
+				return nil, err
+			}
+		}
 		// lookup the parent block which can add the given element
 		if parentBlock := lists.parentFor(element); parentBlock != nil {
 			if err := parentBlock.AddElement(element); err != nil {
-- 
2.43.0


From 1856a9516e9a7175aac47f4a2e6e7d68c68acb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 26/59] fix: render the header and the footer of tables without
 other rows

---
 pkg/renderer/sgml/html5/table.go  | 2 +-
 pkg/renderer/sgml/xhtml5/table.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/html5/table.go b/pkg/renderer/sgml/html5/table.go
index 5d3e8c7..7fc5b22 100644
--- a/pkg/renderer/sgml/html5/table.go
+++ b/pkg/renderer/sgml/html5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
diff --git a/pkg/renderer/sgml/xhtml5/table.go b/pkg/renderer/sgml/xhtml5/table.go
index 8ffd7db..5123ba7 100644
--- a/pkg/renderer/sgml/xhtml5/table.go
+++ b/pkg/renderer/sgml/xhtml5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
-- 
2.43.0


From 781e0cb2d755678bcc1bde9b55befcc5fa1d11d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 27/59] fix: parse the titles of blocks in lists and delimited
 blocks as those of other blocks

---
 pkg/parser/document_processing_apply_substitutions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 12baf15..e962689 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -274,14 +274,14 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			if err := subs.append(Macros); err != nil {
 				return err
 			}
-			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, Entrypoint("AttributeStructuredValue")), opts...)...)
+			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
 			if err != nil {
 				return err
 			}
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
 			subs := attributeSubstitutions()
-			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, Entrypoint("AttributeStructuredValue")), opts...)...)
+			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
 			if err != nil {
 				return err
 			}
@@ -291,7 +291,7 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			if err != nil {
 				return err
 			}
-			v, err := parseWithSubstitutions(s, attributeSubstitutions(), append(append(ctx.opts, Entrypoint("TableColumnsAttribute")), opts...)...)
+			v, err := parseWithSubstitutions(s, attributeSubstitutions(), append(append(ctx.opts, opts...), Entrypoint("TableColumnsAttribute"))...)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 54befdb2a7a1b5f86c2647d01dffb1acb8333ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 28/59] fix: render all the inline elements of verse paragraphs

---
 pkg/renderer/sgml/delimited_block_verse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/delimited_block_verse.go b/pkg/renderer/sgml/delimited_block_verse.go
index 6254420..ab516ea 100644
--- a/pkg/renderer/sgml/delimited_block_verse.go
+++ b/pkg/renderer/sgml/delimited_block_verse.go
@@ -46,7 +46,7 @@ func (r *sgmlRenderer) renderVerseBlock(ctx *context, b *types.DelimitedBlock) (
 
 func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debug("rendering verse paragraph...")
-	content, err := RenderParagraphElements(p)
+	content, err := r.renderParagraphElements(ctx, p)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render verse paragraph lines")
 	}
-- 
2.43.0


From 03916f83fcb4e2015de3f7712cd2f9492e5e2ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 29/59] fix: render the attribute references which were not
 replaced as they were written

---
 pkg/renderer/sgml/elements.go          | 3 +++
 pkg/renderer/sgml/render_plain_text.go | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index 226ab53..275ef13 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -102,6 +102,9 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 		return r.renderSymbol(e)
 	case *types.PredefinedAttribute:
 		return r.renderPredefinedAttribute(e)
+	case *types.AttributeReference:
+		// reference which was not replaced (eg: unknown attribute, or excluded by the substitutions)
+		return "{" + e.Name + "}", nil
 	case *types.AttributeDeclaration:
 		return "", r.declareAttribute(ctx, e)
 	case *types.AttributeReset:
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index ff318d8..039d61c 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -72,6 +72,11 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 		return r.escape(e.Name), nil
 	case *types.Symbol:
 		return r.renderSymbol(e)
+	case *types.PredefinedAttribute:
+		return predefinedAttribute(e.Name), nil
+	case *types.AttributeReference:
+		// reference which was not replaced (eg: unknown attribute, or excluded by the substitutions)
+		return "{" + e.Name + "}", nil
 	case *types.StringElement:
 		return e.Content, nil
 	case *types.FootnoteReference:
-- 
2.43.0


From 979430fafcb91c7468168d3b5a842a606229665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 30/59] fix: do not panic when a level offset takes a section
 out of the range of levels

---
 pkg/types/types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 82d5457..f20c9f1 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2447,10 +2447,18 @@ func NewRawSection(level int, rawText string) (*RawSection, error) {
 }
 
 func (s *RawSection) OffsetLevel(offset int) {
+	// the resulting level is not below the one of the document title, and far above the deepest one, there are no more sections anyway
+	if min := -s.Level; offset < min {
+		offset = min
+	} else if offset > maxLevelOffset {
+		offset = maxLevelOffset
+	}
 	s.RawText = strings.Replace(s.RawText, strings.Repeat("=", s.Level+1)+" ", strings.Repeat("=", s.Level+1+offset)+" ", 1)
 	s.Level = s.Level + offset
 }
 
+const maxLevelOffset = 100
+
 func (s *RawSection) Stringify() string {
 	return s.RawText
 }
-- 
2.43.0


From a6f7c888183bd7e450268498d25836a7f52a4f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 31/59] fix: do not panic when the email is declared without
 (or before) the author

---
 pkg/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index f20c9f1..a0528e2 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -348,7 +348,9 @@ elements:
 				if email, ok := e.Value.(string); ok {
 					if result == nil {
 						result = DocumentAuthors{
-							&DocumentAuthor{},
+							&DocumentAuthor{
+								DocumentAuthorFullName: &DocumentAuthorFullName{},
+							},
 						}
 					}
 					result[0].Email = email
-- 
2.43.0


From 89e45ba3fa1c8d5a72b5148c0bf0e0d9ff71a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 32/59] fix: support the '<=' and '>=' operators in 'ifeval'
 conditions

---
 pkg/parser/parser.go  | 32 ++++++++++++++++----------------
 pkg/parser/parser.peg | 10 +++++-----
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9d89b05..9625dfe 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -995,19 +995,19 @@ var g = &grammar{
 																run: (*parser).callonDocumentRawLine198,
 																expr: &litMatcher{
 																	pos:        position{line: 106, col: 8, offset: 3009},
-																	val:        "<",
+																	val:        "<=",
 																	ignoreCase: false,
-																	want:       "\"<\"",
+																	want:       "\"<=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 109, col: 8, offset: 3071},
+																pos: position{line: 109, col: 8, offset: 3075},
 																run: (*parser).callonDocumentRawLine200,
 																expr: &litMatcher{
-																	pos:        position{line: 109, col: 8, offset: 3071},
-																	val:        "<=",
+																	pos:        position{line: 109, col: 8, offset: 3075},
+																	val:        "<",
 																	ignoreCase: false,
-																	want:       "\"<=\"",
+																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
@@ -1015,19 +1015,19 @@ var g = &grammar{
 																run: (*parser).callonDocumentRawLine202,
 																expr: &litMatcher{
 																	pos:        position{line: 112, col: 8, offset: 3137},
-																	val:        ">",
+																	val:        ">=",
 																	ignoreCase: false,
-																	want:       "\">\"",
+																	want:       "\">=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 115, col: 8, offset: 3202},
+																pos: position{line: 115, col: 8, offset: 3206},
 																run: (*parser).callonDocumentRawLine204,
 																expr: &litMatcher{
-																	pos:        position{line: 115, col: 8, offset: 3202},
-																	val:        ">=",
+																	pos:        position{line: 115, col: 8, offset: 3206},
+																	val:        ">",
 																	ignoreCase: false,
-																	want:       "\">=\"",
+																	want:       "\">\"",
 																},
 															},
 														},
@@ -47791,7 +47791,7 @@ func (p *parser) callonDocumentRawLine196() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine198() (interface{}, error) {
-	return types.NewLessThanOperand()
+	return types.NewLessOrEqualOperand()
 
 }
 
@@ -47802,7 +47802,7 @@ func (p *parser) callonDocumentRawLine198() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine200() (interface{}, error) {
-	return types.NewLessOrEqualOperand()
+	return types.NewLessThanOperand()
 
 }
 
@@ -47813,7 +47813,7 @@ func (p *parser) callonDocumentRawLine200() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine202() (interface{}, error) {
-	return types.NewGreaterThanOperand()
+	return types.NewGreaterOrEqualOperand()
 
 }
 
@@ -47824,7 +47824,7 @@ func (p *parser) callonDocumentRawLine202() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine204() (interface{}, error) {
-	return types.NewGreaterOrEqualOperand()
+	return types.NewGreaterThanOperand()
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index f63b127..42efae4 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -103,18 +103,18 @@ IfevalExpressionOperand <-
     / ("!=" {
         return types.NewNotEqualOperand()
     })
-    / ("<" {
-        return types.NewLessThanOperand()
-    })
     / ("<=" {
         return types.NewLessOrEqualOperand()
     })
-    / (">" {
-        return types.NewGreaterThanOperand()
+    / ("<" {
+        return types.NewLessThanOperand()
     })
     / (">=" {
         return types.NewGreaterOrEqualOperand()
     })
+    / (">" {
+        return types.NewGreaterThanOperand()
+    })
 
 IfevalExpressionValue <- 
     Number
-- 
2.43.0


From 692b819969aaea17f4abfb25df3c2abe21b19d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 33/59] fix: compare the value of an attribute with a number in
 'ifeval' conditions

---
 pkg/types/types.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index a0528e2..832e95e 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3048,7 +3048,37 @@ func NewIfevalCondition(left, right interface{}, operand IfevalOperand) (*Ifeval
 var _ ConditionalInclusion = &IfevalCondition{}
 
 func (c *IfevalCondition) Eval(attributes map[string]interface{}) bool {
-	return c.Operand(c.left(attributes), c.right(attributes))
+	return c.Operand(alignIfevalOperands(c.left(attributes), c.right(attributes)))
+}
+
+// alignIfevalOperands converts the operand which is a string into a number if the other operand is a number
+// (the value of an attribute declared in the document is always a string)
+func alignIfevalOperands(left, right interface{}) (interface{}, interface{}) {
+	switch l := left.(type) {
+	case string:
+		return toNumberLike(l, right), right
+	default:
+		if r, ok := right.(string); ok {
+			return left, toNumberLike(r, left)
+		}
+		return left, right
+	}
+}
+
+// toNumberLike converts the given string into a number of the same type as `other`. Returns the string
+// itself if the conversion is not possible
+func toNumberLike(s string, other interface{}) interface{} {
+	switch other.(type) {
+	case int:
+		if n, err := strconv.Atoi(s); err == nil {
+			return n
+		}
+	case float64:
+		if f, err := strconv.ParseFloat(s, 64); err == nil {
+			return f
+		}
+	}
+	return s
 }
 
 func (c *IfevalCondition) left(attributes map[string]interface{}) interface{} {
-- 
2.43.0


From 8eeacde0f5420c821433c25798e467152f11d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 34/59] fix: replace the attribute references in the values
 which are compared in 'ifeval' conditions

---
 pkg/parser/document_preprocessing.go | 29 +++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 1932f7b..bc2525c 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -57,7 +57,11 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
 				if !t.withinVerbatimBlock() {
-					ctx.attributes.set(e.Name, e.Value)
+					v, err := attributeDeclarationValue(ctx, e)
+					if err != nil {
+						return "", err
+					}
+					ctx.attributes.set(e.Name, v)
 				}
 				b.WriteString(e.RawText())
 			case *types.AttributeReset:
@@ -108,6 +112,29 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 	return b.String(), nil
 }
 
+// attributeDeclarationValue returns the value of the given declaration, in which the references to other attributes
+// are replaced with their current value (and the references to unknown attributes are kept, without any warning at this stage)
+func attributeDeclarationValue(ctx *ParseContext, d *types.AttributeDeclaration) (interface{}, error) {
+	elements, ok := d.Value.([]interface{})
+	if !ok {
+		return d.Value, nil
+	}
+	result := make([]interface{}, len(elements))
+	for i, e := range elements {
+		result[i] = e
+		if a, ok := e.(*types.AttributeReference); ok {
+			if _, found := ctx.attributes.get(a.Name); found {
+				v, _, err := valueForAttributeRef(ctx, a)
+				if err != nil {
+					return nil, err
+				}
+				result[i] = v
+			}
+		}
+	}
+	return types.Reduce(result), nil
+}
+
 // newLineScanner returns a scanner of the lines of the given source, without the limit of 64KB per line
 func newLineScanner(source io.Reader) *bufio.Scanner {
 	scanner := bufio.NewScanner(source)
-- 
2.43.0


From c21cbc23bf4eb94e0463ab7f0d5537cf665ea92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 35/59] fix: evaluate the counters in the values of the
 attributes of elements

---
 .../document_processing_apply_substitutions.go  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index e962689..ef5f2e1 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -345,9 +346,15 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 }
 
 func replaceAttributeRefsInAttributeValues(ctx *ParseContext, attrs types.Attributes) error {
+	// always in the same order, since the values may increment counters
+	keys := make([]string, 0, len(attrs))
+	for k := range attrs {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
 	var err error
-	for k, v := range attrs {
-		if attrs[k], err = replaceAttributeRefsInValue(ctx, v); err != nil {
+	for _, k := range keys {
+		if attrs[k], err = replaceAttributeRefsInValue(ctx, attrs[k]); err != nil {
 			return err
 		}
 	}
@@ -390,6 +397,12 @@ func replaceAttributeRefsInSlicedValue(ctx *ParseContext, elements []interface{}
 				return nil, err
 			}
 			result = append(result, v)
+		case *types.CounterSubstitution:
+			v, err := valueForCounter(ctx, e)
+			if err != nil {
+				return nil, err
+			}
+			result = append(result, v)
 		case []interface{}: // entries in Roles and Options
 			v, err := replaceAttributeRefsInSlicedValue(ctx, e)
 			if err != nil {
-- 
2.43.0


From ad65d1509fdbc8d539c58af95c1b93c80f8fe5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 36/59] fix: replace the attribute references anywhere in the
 quoted values of attributes

---
 pkg/parser/parser.go  | 52 +++++++++++++++++++++++++++++++------------
 pkg/parser/parser.peg |  4 ++--
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9625dfe..a5d6543 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -13891,14 +13891,26 @@ var g = &grammar{
 								&actionExpr{
 									pos: position{line: 582, col: 12, offset: 17980},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
-									expr: &oneOrMoreExpr{
+									expr: &seqExpr{
 										pos: position{line: 582, col: 12, offset: 17980},
-										expr: &charClassMatcher{
-											pos:        position{line: 582, col: 12, offset: 17980},
-											val:        "[^\\r\\n\\\\\\ ]",
-											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
-											ignoreCase: false,
-											inverted:   true,
+										exprs: []interface{}{
+											&charClassMatcher{
+												pos:        position{line: 582, col: 12, offset: 17980},
+												val:        "[^\\r\\n\\\\\\ ]",
+												chars:      []rune{'\r', '\n', '\\', '\'', ' '},
+												ignoreCase: false,
+												inverted:   true,
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 582, col: 25, offset: 17993},
+												expr: &charClassMatcher{
+													pos:        position{line: 582, col: 25, offset: 17993},
+													val:        "[^\\r\\n\\\\\\ {]",
+													chars:      []rune{'\r', '\n', '\\', '\'', ' ', '{'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
 										},
 									},
 								},
@@ -14411,14 +14423,26 @@ var g = &grammar{
 								&actionExpr{
 									pos: position{line: 608, col: 12, offset: 18863},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
-									expr: &oneOrMoreExpr{
+									expr: &seqExpr{
 										pos: position{line: 608, col: 12, offset: 18863},
-										expr: &charClassMatcher{
-											pos:        position{line: 608, col: 12, offset: 18863},
-											val:        "[^\\r\\n\\\\\"` ]",
-											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
-											ignoreCase: false,
-											inverted:   true,
+										exprs: []interface{}{
+											&charClassMatcher{
+												pos:        position{line: 608, col: 12, offset: 18863},
+												val:        "[^\\r\\n\\\\\"` ]",
+												chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
+												ignoreCase: false,
+												inverted:   true,
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 608, col: 25, offset: 18876},
+												expr: &charClassMatcher{
+													pos:        position{line: 608, col: 25, offset: 18876},
+													val:        "[^\\r\\n\\\\\"` {]",
+													chars:      []rune{'\r', '\n', '\\', '"', '`', ' ', '{'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
 										},
 									},
 								},
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 42efae4..c34aa24 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -579,7 +579,7 @@ SingleQuotedAttributeValueContent <-
         / ( "'`" / "`'" / `\` { // quoted string delimiters or standalone backslash
             return types.NewStringElement(string(c.text)) // keep as-is for now
         })
-        / ([^\r\n\\'' ]+ { // = and , signs are allowed within '' quoted values
+        / ([^\r\n\\'' ] [^\r\n\\'' {]* { // stop before `{`, since it may be the start of an attribute reference. Also, = and , signs are allowed within '' quoted values
             return types.NewStringElement(string(c.text))
         })
     )+ {
@@ -605,7 +605,7 @@ DoubleQuotedAttributeValueContent <-
         / ( "\"`" / "`\"" / `\` / "`" { // quoted string delimiters or standalone backslash or standalone backtick
             return types.NewStringElement(string(c.text)) // keep as-is for now
         })
-        / ([^\r\n\\"` ]+ { // = and , signs are allowed within " quoted values
+        / ([^\r\n\\"` ] [^\r\n\\"` {]* { // stop before `{`, since it may be the start of an attribute reference. Also, = and , signs are allowed within " quoted values
             return types.NewStringElement(string(c.text))
         })
     )+ {
-- 
2.43.0


From 6b2d4f8da5966ed184c626f3c9f392c3b889684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:38 +0000
Subject: [PATCH 37/59] fix: do not use addresses in memory in the ids of
 sections when the separator or prefix has special characters

---
 pkg/types/attributes.go  | 6 +-----
 pkg/types/types_utils.go | 4 ++++
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index 2a89e9d..b949292 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -538,11 +538,7 @@ func (a Attributes) GetAsStringWithDefault(key, defaultValue string) string {
 		if value == nil {
 			return "" // nil present means attribute was reset
 		}
-		if value, ok := value.(string); ok {
-			return value
-		} else if v, ok := a[key]; ok {
-			return fmt.Sprintf("%v", v)
-		}
+		return stringify(value)
 	}
 	return defaultValue
 }
diff --git a/pkg/types/types_utils.go b/pkg/types/types_utils.go
index 71281cb..049b7de 100644
--- a/pkg/types/types_utils.go
+++ b/pkg/types/types_utils.go
@@ -157,6 +157,10 @@ func stringify(element interface{}) string {
 		return element.Content
 	case *SpecialCharacter:
 		return element.Name
+	case *InlinePassthrough:
+		return stringify(element.Elements)
+	case *PredefinedAttribute:
+		return "{" + element.Name + "}"
 	case *AttributeReference: // TODO: should never happen?
 		return "{" + element.Name + "}"
 	default:
-- 
2.43.0


From fa605d1bfc8ba078be7a9db98dbb77d36a6af729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:19 +0000
Subject: [PATCH 38/59] fix: do not write the log messages in the standard
 output, since it may be the output of the conversion

---
 cmd/libasciidoc/root_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index b851afe..07a752c 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -42,7 +42,7 @@ func NewRootCmd() *cobra.Command {
 				DisableTimestamp:          true,
 			})
 			log.SetLevel(lvl)
-			log.SetOutput(cmd.OutOrStdout())
+			log.SetOutput(cmd.ErrOrStderr()) // not in the standard output, which may be the output of the conversion
 			return nil
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
-- 
2.43.0


From 7ad013db0f3d0bb4fcafd469dd5a794a3d5ac5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:10 +0000
Subject: [PATCH 39/59] fix: keep the lines which follow a block attached to a
 list element

---
 pkg/types/types.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 832e95e..6ee6e7e 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -931,12 +931,22 @@ func NewListElements(elements []interface{}) (*ListElements, error) {
 		case *RawLine, *SinglelineComment:
 			// append to last element
 			if len(elmts) > 0 {
-				switch elmt := elmts[len(elmts)-1].(type) {
-				case WithElementAddition:
-					if err := elmt.AddElement(e); err != nil {
-						return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
+				elmt, ok := elmts[len(elmts)-1].(WithElementAddition)
+				if !ok {
+					return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
+				}
+				if c, ok := elmt.(*ListContinuation); ok && !c.acceptsLines() {
+					// line which follows another kind of attached block: begins an attached paragraph (unless it is a comment)
+					if l, ok := e.(*RawLine); ok {
+						p, err := NewParagraph(nil, l)
+						if err != nil {
+							return nil, err
+						}
+						elmts = append(elmts, &ListContinuation{Element: p})
 					}
-				default:
+					continue
+				}
+				if err := elmt.AddElement(e); err != nil {
 					return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
 				}
 			}
@@ -1054,6 +1064,12 @@ func (c *ListContinuation) AddElement(element interface{}) error {
 	return errors.Errorf("cannot add element of type '%T' to list element continuation", c.Element)
 }
 
+// acceptsLines checks if the attached element can be continued with more lines
+func (c *ListContinuation) acceptsLines() bool {
+	_, ok := c.Element.(WithElementAddition)
+	return ok
+}
+
 // ------------------------------------------
 // Callouts
 // ------------------------------------------
-- 
2.43.0


From f283173242961bbfe1f0b701e740bf4df3c5a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:41 +0000
Subject: [PATCH 40/59] fix: do not use addresses in memory for formatted text
 in the values of document attributes

---
 pkg/types/types_utils.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/types/types_utils.go b/pkg/types/types_utils.go
index 049b7de..4e708f3 100644
--- a/pkg/types/types_utils.go
+++ b/pkg/types/types_utils.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"fmt"
+	"reflect"
 	"strings"
 
 	log "github.com/sirupsen/logrus"
@@ -159,11 +160,20 @@ func stringify(element interface{}) string {
 		return element.Name
 	case *InlinePassthrough:
 		return stringify(element.Elements)
+	case *QuotedText:
+		return stringify(element.Elements)
+	case *Symbol:
+		return element.Name
+	case *InlineLink:
+		return element.Location.ToString()
 	case *PredefinedAttribute:
 		return "{" + element.Name + "}"
 	case *AttributeReference: // TODO: should never happen?
 		return "{" + element.Name + "}"
 	default:
+		if reflect.ValueOf(element).Kind() == reflect.Ptr {
+			return "" // other elements have no text, and their address must not be used instead
+		}
 		return fmt.Sprintf("%v", element) // "best-effort" here
 	}
 }
-- 
2.43.0


From 06e0bc1d1a427db9855f4ff1470c108a9dca1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:53 +0000
Subject: [PATCH 41/59] fix: execute a user macro once only, even if the title
 which contains it is rendered several times

---
 pkg/renderer/sgml/context.go    | 4 +++-
 pkg/renderer/sgml/user_macro.go | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 67ac940..05594ec 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -15,7 +15,8 @@ type context struct {
 	attributes           types.Attributes
 	immutableAttributes  types.Attributes // set in the configuration: the document cannot change them
 	elementReferences    types.ElementReferences
-	resolvingXrefs       map[string]bool // the IDs of the cross references whose label is being rendered
+	resolvingXrefs       map[string]bool             // the IDs of the cross references whose label is being rendered
+	userMacros           map[*types.UserMacro]string // the output of the user macros which were executed
 	hasHeader            bool
 	sectionNumbering     types.SectionNumbers
 }
@@ -30,6 +31,7 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		immutableAttributes: config.Attributes,
 		elementReferences:   doc.ElementReferences,
 		resolvingXrefs:      map[string]bool{},
+		userMacros:          map[*types.UserMacro]string{},
 		hasHeader:           header != nil,
 	}
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
diff --git a/pkg/renderer/sgml/user_macro.go b/pkg/renderer/sgml/user_macro.go
index 5ddd687..f22ff45 100644
--- a/pkg/renderer/sgml/user_macro.go
+++ b/pkg/renderer/sgml/user_macro.go
@@ -7,6 +7,10 @@ import (
 )
 
 func (r *sgmlRenderer) renderUserMacro(ctx *context, m *types.UserMacro) (string, error) {
+	if result, found := ctx.userMacros[m]; found {
+		// eg: macro in the title of a block, which is rendered again for the cross references to this block
+		return result, nil
+	}
 	buf := &strings.Builder{}
 	macro, ok := ctx.config.Macros[m.Name]
 	if !ok {
@@ -23,6 +27,7 @@ func (r *sgmlRenderer) renderUserMacro(ctx *context, m *types.UserMacro) (string
 	if err := macro.Execute(buf, m); err != nil {
 		return "", err
 	}
+	ctx.userMacros[m] = buf.String()
 	return buf.String(), nil
 
 }
-- 
2.43.0


From 4cc4f004268f12b8513692e29ccc569304682ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 42/59] fix: render the titles of blocks before their contents,
 so that user macros are executed in document order

---
 .../sgml/delimited_block_admonition.go        | 14 ++++----
 pkg/renderer/sgml/delimited_block_example.go  | 24 +++++++-------
 pkg/renderer/sgml/delimited_block_fenced.go   |  8 ++---
 pkg/renderer/sgml/delimited_block_listing.go  | 16 +++++-----
 .../sgml/delimited_block_markdown_quote.go    |  8 ++---
 pkg/renderer/sgml/delimited_block_open.go     |  8 ++---
 pkg/renderer/sgml/delimited_block_quote.go    | 16 +++++-----
 pkg/renderer/sgml/delimited_block_sidebar.go  |  8 ++---
 pkg/renderer/sgml/delimited_block_source.go   |  8 ++---
 pkg/renderer/sgml/delimited_block_verse.go    | 16 +++++-----
 pkg/renderer/sgml/list.go                     | 32 +++++++++----------
 pkg/renderer/sgml/literal_blocks.go           |  8 ++---
 pkg/renderer/sgml/paragraph.go                |  8 ++---
 pkg/renderer/sgml/table.go                    |  8 ++---
 14 files changed, 91 insertions(+), 91 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_admonition.go b/pkg/renderer/sgml/delimited_block_admonition.go
index 55770a2..b3d1699 100644
--- a/pkg/renderer/sgml/delimited_block_admonition.go
+++ b/pkg/renderer/sgml/delimited_block_admonition.go
@@ -16,6 +16,10 @@ func (r *sgmlRenderer) renderAdmonitionBlock(ctx *context, b *types.DelimitedBlo
 		return "", err
 	}
 	blocks := discardBlankLines(b.Elements)
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render admonition block title")
+	}
 	content, err := r.renderElements(ctx, blocks)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render admonition block content")
@@ -24,10 +28,6 @@ func (r *sgmlRenderer) renderAdmonitionBlock(ctx *context, b *types.DelimitedBlo
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render admonition block roles")
 	}
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render admonition block title")
-	}
 	return r.execute(r.admonitionBlock, struct {
 		Context *context
 		ID      string
@@ -58,15 +58,15 @@ func (r *sgmlRenderer) renderAdmonitionParagraph(ctx *context, p *types.Paragrap
 	if err != nil {
 		return "", err
 	}
-	content, err := r.renderParagraphElements(ctx, p)
+	title, err := r.renderElementTitle(ctx, p.Attributes)
 	if err != nil {
 		return "", err
 	}
-	roles, err := r.renderElementRoles(ctx, p.Attributes)
+	content, err := r.renderParagraphElements(ctx, p)
 	if err != nil {
 		return "", err
 	}
-	title, err := r.renderElementTitle(ctx, p.Attributes)
+	roles, err := r.renderElementRoles(ctx, p.Attributes)
 	if err != nil {
 		return "", err
 	}
diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index 5e84312..637f5d9 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -26,6 +26,10 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 		number = ctx.GetAndIncrementExampleBlockCounter()
 		c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
 	}
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render example block title")
+	}
 	content, err := r.renderElements(ctx, b.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block content")
@@ -34,10 +38,6 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block roles")
 	}
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render example block title")
-	}
 	caption := &strings.Builder{}
 	caption.WriteString(c)
 	return r.execute(r.exampleBlock, struct {
@@ -61,6 +61,10 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 
 func (r *sgmlRenderer) renderExampleParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debug("rendering example paragraph...")
+	title, err := r.renderElementTitle(ctx, p.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render example paragraph title")
+	}
 	content, err := r.renderElements(ctx, p.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example paragraph content")
@@ -69,10 +73,6 @@ func (r *sgmlRenderer) renderExampleParagraph(ctx *context, p *types.Paragraph)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example paragraph roles")
 	}
-	title, err := r.renderElementTitle(ctx, p.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render example paragraph title")
-	}
 	return r.execute(r.exampleBlock, struct {
 		Context       *context
 		ID            string
@@ -92,6 +92,10 @@ func (r *sgmlRenderer) renderExampleParagraph(ctx *context, p *types.Paragraph)
 
 func (r *sgmlRenderer) renderLiteralParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debugf("rendering literal paragraph")
+	title, err := r.renderElementTitle(ctx, p.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render literal block roles")
+	}
 	content, err := r.renderElements(ctx, p.Elements)
 	if err != nil {
 		return "", err
@@ -104,10 +108,6 @@ func (r *sgmlRenderer) renderLiteralParagraph(ctx *context, p *types.Paragraph)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render literal block roles")
 	}
-	title, err := r.renderElementTitle(ctx, p.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render literal block roles")
-	}
 	return r.execute(r.literalBlock, struct {
 		Context *context
 		ID      string
diff --git a/pkg/renderer/sgml/delimited_block_fenced.go b/pkg/renderer/sgml/delimited_block_fenced.go
index bb9a29e..27a2768 100644
--- a/pkg/renderer/sgml/delimited_block_fenced.go
+++ b/pkg/renderer/sgml/delimited_block_fenced.go
@@ -13,6 +13,10 @@ func (r *sgmlRenderer) renderFencedBlock(ctx *context, b *types.DelimitedBlock)
 		ctx.withinDelimitedBlock = previousWithinDelimitedBlock
 	}()
 	ctx.withinDelimitedBlock = true
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render fenced block roles")
+	}
 	content, err := r.renderElements(ctx, b.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render fenced block content")
@@ -21,10 +25,6 @@ func (r *sgmlRenderer) renderFencedBlock(ctx *context, b *types.DelimitedBlock)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render fenced block roles")
 	}
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render fenced block roles")
-	}
 	return r.execute(r.fencedBlock, struct {
 		Context *context
 		ID      string
diff --git a/pkg/renderer/sgml/delimited_block_listing.go b/pkg/renderer/sgml/delimited_block_listing.go
index a05d755..a189c20 100644
--- a/pkg/renderer/sgml/delimited_block_listing.go
+++ b/pkg/renderer/sgml/delimited_block_listing.go
@@ -16,6 +16,10 @@ func (r *sgmlRenderer) renderListingBlock(ctx *context, b *types.DelimitedBlock)
 		ctx.withinDelimitedBlock = previousWithinDelimitedBlock
 	}()
 	ctx.withinDelimitedBlock = true
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render listing block title")
+	}
 	content, err := r.renderElements(ctx, b.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render listing block content")
@@ -24,10 +28,6 @@ func (r *sgmlRenderer) renderListingBlock(ctx *context, b *types.DelimitedBlock)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render listing block roles")
 	}
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render listing block title")
-	}
 	return r.execute(r.listingBlock, struct {
 		Context *context
 		ID      string
@@ -44,6 +44,10 @@ func (r *sgmlRenderer) renderListingBlock(ctx *context, b *types.DelimitedBlock)
 }
 
 func (r *sgmlRenderer) renderListingParagraph(ctx *context, p *types.Paragraph) (string, error) {
+	title, err := r.renderElementTitle(ctx, p.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render listing paragraph roles")
+	}
 	content, err := r.renderElements(ctx, p.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render listing block content")
@@ -52,10 +56,6 @@ func (r *sgmlRenderer) renderListingParagraph(ctx *context, p *types.Paragraph)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render listing block roles")
 	}
-	title, err := r.renderElementTitle(ctx, p.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render listing paragraph roles")
-	}
 	return r.execute(r.listingBlock, struct {
 		Context *context
 		ID      string
diff --git a/pkg/renderer/sgml/delimited_block_markdown_quote.go b/pkg/renderer/sgml/delimited_block_markdown_quote.go
index d991af2..be41e34 100644
--- a/pkg/renderer/sgml/delimited_block_markdown_quote.go
+++ b/pkg/renderer/sgml/delimited_block_markdown_quote.go
@@ -8,6 +8,10 @@ import (
 )
 
 func (r *sgmlRenderer) renderMarkdownQuoteBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render markdown quote block title")
+	}
 	content, err := r.renderElements(ctx, b.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render markdown quote block content")
@@ -17,10 +21,6 @@ func (r *sgmlRenderer) renderMarkdownQuoteBlock(ctx *context, b *types.Delimited
 		return "", errors.Wrap(err, "unable to render markdown quote block roles")
 	}
 	attribution := newAttribution(b)
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render markdown quote block title")
-	}
 	return r.execute(r.markdownQuoteBlock, struct {
 		Context     *context
 		ID          string
diff --git a/pkg/renderer/sgml/delimited_block_open.go b/pkg/renderer/sgml/delimited_block_open.go
index a305a83..851a077 100644
--- a/pkg/renderer/sgml/delimited_block_open.go
+++ b/pkg/renderer/sgml/delimited_block_open.go
@@ -7,6 +7,10 @@ import (
 
 func (r *sgmlRenderer) renderOpenBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
 	blocks := discardBlankLines(b.Elements)
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render open block title")
+	}
 	content, err := r.renderElements(ctx, blocks)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render open block content")
@@ -15,10 +19,6 @@ func (r *sgmlRenderer) renderOpenBlock(ctx *context, b *types.DelimitedBlock) (s
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render open block roles")
 	}
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render open block title")
-	}
 	return r.execute(r.openBlock, struct {
 		Context *context
 		ID      string
diff --git a/pkg/renderer/sgml/delimited_block_quote.go b/pkg/renderer/sgml/delimited_block_quote.go
index 4764215..2a1617d 100644
--- a/pkg/renderer/sgml/delimited_block_quote.go
+++ b/pkg/renderer/sgml/delimited_block_quote.go
@@ -7,6 +7,10 @@ import (
 )
 
 func (r *sgmlRenderer) renderQuoteBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render quote block title")
+	}
 	content, err := r.renderElements(ctx, b.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render quote block content")
@@ -16,10 +20,6 @@ func (r *sgmlRenderer) renderQuoteBlock(ctx *context, b *types.DelimitedBlock) (
 		return "", errors.Wrap(err, "unable to render quote block roles")
 	}
 	attribution := newAttribution(b)
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render quote block title")
-	}
 	return r.execute(r.quoteBlock, struct {
 		Context     *context
 		ID          string
@@ -39,15 +39,15 @@ func (r *sgmlRenderer) renderQuoteBlock(ctx *context, b *types.DelimitedBlock) (
 
 func (r *sgmlRenderer) renderQuoteParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debug("rendering quote paragraph...")
+	title, err := r.renderElementTitle(ctx, p.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render callout list roles")
+	}
 	content, err := r.renderParagraphElements(ctx, p)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render quote paragraph lines")
 	}
 	attribution := newAttribution(p)
-	title, err := r.renderElementTitle(ctx, p.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render callout list roles")
-	}
 	return r.execute(r.quoteParagraph, struct {
 		Context     *context
 		ID          string
diff --git a/pkg/renderer/sgml/delimited_block_sidebar.go b/pkg/renderer/sgml/delimited_block_sidebar.go
index 307a62b..95f83cd 100644
--- a/pkg/renderer/sgml/delimited_block_sidebar.go
+++ b/pkg/renderer/sgml/delimited_block_sidebar.go
@@ -7,6 +7,10 @@ import (
 
 func (r *sgmlRenderer) renderSidebarBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
 	blocks := discardBlankLines(b.Elements)
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render sidebar block title")
+	}
 	content, err := r.renderElements(ctx, blocks)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render sidebar block content")
@@ -15,10 +19,6 @@ func (r *sgmlRenderer) renderSidebarBlock(ctx *context, b *types.DelimitedBlock)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render sidebar block roles")
 	}
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render sidebar block title")
-	}
 	return r.execute(r.sidebarBlock, struct {
 		Context *context
 		ID      string
diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 75150fa..e2df25e 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -16,6 +16,10 @@ import (
 
 func (r *sgmlRenderer) renderSourceBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
 	// first, render the content
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render source block title")
+	}
 	content, highlighter, language, err := r.renderSourceBlockElements(ctx, b)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render source block content")
@@ -33,10 +37,6 @@ func (r *sgmlRenderer) renderSourceBlock(ctx *context, b *types.DelimitedBlock)
 			}
 		}
 	}
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render source block title")
-	}
 	return r.execute(r.sourceBlock, struct {
 		ID                string
 		Title             string
diff --git a/pkg/renderer/sgml/delimited_block_verse.go b/pkg/renderer/sgml/delimited_block_verse.go
index ab516ea..323762d 100644
--- a/pkg/renderer/sgml/delimited_block_verse.go
+++ b/pkg/renderer/sgml/delimited_block_verse.go
@@ -18,15 +18,15 @@ func (r *sgmlRenderer) renderVerseBlock(ctx *context, b *types.DelimitedBlock) (
 		ctx.withinDelimitedBlock = previousWithinDelimitedBlock
 	}()
 	ctx.withinDelimitedBlock = true
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render verse block title")
+	}
 	content, err := r.renderElements(ctx, b.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render verse block content")
 	}
 	attribution := newAttribution(b)
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render verse block title")
-	}
 	return r.execute(r.verseBlock, struct {
 		Context     *context
 		ID          string
@@ -46,15 +46,15 @@ func (r *sgmlRenderer) renderVerseBlock(ctx *context, b *types.DelimitedBlock) (
 
 func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debug("rendering verse paragraph...")
+	title, err := r.renderElementTitle(ctx, p.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render callout list roles")
+	}
 	content, err := r.renderParagraphElements(ctx, p)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render verse paragraph lines")
 	}
 	attribution := newAttribution(p)
-	title, err := r.renderElementTitle(ctx, p.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render callout list roles")
-	}
 	return r.execute(r.verseParagraph, struct {
 		Context     *context
 		ID          string
diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index 3cf5c62..feaba17 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -31,6 +31,10 @@ func (r *sgmlRenderer) renderList(ctx *context, l *types.List) (string, error) {
 func (r *sgmlRenderer) renderOrderedList(ctx *context, l *types.List) (string, error) {
 	content := &strings.Builder{}
 
+	title, err := r.renderElementTitle(ctx, l.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render callout list roles")
+	}
 	for _, element := range l.Elements {
 		e, ok := element.(*types.OrderedListElement)
 		if !ok {
@@ -48,10 +52,6 @@ func (r *sgmlRenderer) renderOrderedList(ctx *context, l *types.List) (string, e
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render ordered list roles")
 	}
-	title, err := r.renderElementTitle(ctx, l.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render callout list roles")
-	}
 	return r.execute(r.orderedList, struct {
 		Context   *context
 		ID        string
@@ -139,6 +139,10 @@ func (r *sgmlRenderer) renderUnorderedList(ctx *context, l *types.List) (string,
 	}
 	content := &strings.Builder{}
 
+	title, err := r.renderElementTitle(ctx, l.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render callout list roles")
+	}
 	for _, element := range l.Elements {
 		if err := r.renderUnorderedListElement(ctx, content, element); err != nil {
 			return "", errors.Wrap(err, "unable to render unordered list")
@@ -148,10 +152,6 @@ func (r *sgmlRenderer) renderUnorderedList(ctx *context, l *types.List) (string,
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render unordered list roles")
 	}
-	title, err := r.renderElementTitle(ctx, l.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render callout list roles")
-	}
 	return r.execute(r.unorderedList, struct {
 		Context   *context
 		ID        string
@@ -204,6 +204,10 @@ func (r *sgmlRenderer) renderLabeledList(ctx *context, l *types.List) (string, e
 
 	content := &strings.Builder{}
 	cont := false
+	title, err := r.renderElementTitle(ctx, l.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render labeled list roles")
+	}
 	for _, element := range l.Elements {
 		e, ok := element.(*types.LabeledListElement)
 		if !ok {
@@ -217,10 +221,6 @@ func (r *sgmlRenderer) renderLabeledList(ctx *context, l *types.List) (string, e
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render labeled list roles")
 	}
-	title, err := r.renderElementTitle(ctx, l.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render labeled list roles")
-	}
 	result := &strings.Builder{}
 	if err := tmpl.Execute(result, struct {
 		Context *context
@@ -309,6 +309,10 @@ func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Te
 // -------------------------------------------------------
 func (r *sgmlRenderer) renderCalloutList(ctx *context, l *types.List) (string, error) {
 	content := &strings.Builder{}
+	title, err := r.renderElementTitle(ctx, l.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render callout list roles")
+	}
 	for _, element := range l.Elements {
 		e, ok := element.(*types.CalloutListElement)
 		if !ok {
@@ -324,10 +328,6 @@ func (r *sgmlRenderer) renderCalloutList(ctx *context, l *types.List) (string, e
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render callout list roles")
 	}
-	title, err := r.renderElementTitle(ctx, l.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render callout list roles")
-	}
 	return r.execute(r.calloutList, struct {
 		Context *context
 		ID      string
diff --git a/pkg/renderer/sgml/literal_blocks.go b/pkg/renderer/sgml/literal_blocks.go
index db5a6c1..f687409 100644
--- a/pkg/renderer/sgml/literal_blocks.go
+++ b/pkg/renderer/sgml/literal_blocks.go
@@ -10,6 +10,10 @@ import (
 
 func (r *sgmlRenderer) renderLiteralBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
 	log.Debugf("rendering literal block")
+	title, err := r.renderElementTitle(ctx, b.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render literal block title")
+	}
 	content, err := r.renderElements(ctx, b.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render literal block content")
@@ -18,10 +22,6 @@ func (r *sgmlRenderer) renderLiteralBlock(ctx *context, b *types.DelimitedBlock)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render literal block roles")
 	}
-	title, err := r.renderElementTitle(ctx, b.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render literal block title")
-	}
 
 	return r.execute(r.literalBlock, struct {
 		Context *context
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 6c7ad27..764fb5d 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -40,6 +40,10 @@ func (r *sgmlRenderer) renderParagraph(ctx *context, p *types.Paragraph) (string
 
 func (r *sgmlRenderer) renderRegularParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debug("rendering a regular paragraph")
+	title, err := r.renderElementTitle(ctx, p.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render paragraph roles")
+	}
 	content, err := r.renderParagraphElements(ctx, p)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render paragraph content")
@@ -48,10 +52,6 @@ func (r *sgmlRenderer) renderRegularParagraph(ctx *context, p *types.Paragraph)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render paragraph roles")
 	}
-	title, err := r.renderElementTitle(ctx, p.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render paragraph roles")
-	}
 	return r.execute(r.paragraph, struct {
 		Context *context
 		ID      string
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 75819f4..a098d8c 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -63,6 +63,10 @@ func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error)
 	if err != nil {
 		return "", errors.Wrap(err, "failed to render table")
 	}
+	title, err := r.renderElementTitle(ctx, t.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render table title")
+	}
 	header, err := r.renderTableHeader(ctx, t.Header, columns)
 	if err != nil {
 		return "", errors.Wrap(err, "failed to render table")
@@ -79,10 +83,6 @@ func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render table roles")
 	}
-	title, err := r.renderElementTitle(ctx, t.Attributes)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render table title")
-	}
 	return r.execute(r.table, struct {
 		Context     *context
 		ID          string
-- 
2.43.0


From a2037c449b4b0160c82f70a160ff70de68c1e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:17 +0000
Subject: [PATCH 43/59] fix: parse attributes to unset (name!) and values with
 '=' in the command line

---
 cmd/libasciidoc/root_cmd.go  | 16 +++++++++++-----
 pkg/parser/context.go        |  6 +++++-
 pkg/renderer/sgml/context.go |  4 ++++
 pkg/types/types.go           | 19 ++++++++++++-------
 4 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 07a752c..01a072e 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -141,15 +141,21 @@ func createOut(sourcePath, outname string) (io.Writer, closeFunc, error) {
 	return outfile, newCloseFileFunc(outfile), nil
 }
 
-// converts the `name`, `!name` and `name=value` into a map
+// converts the `name`, `name!` (or `!name`) and `name=value` into a map,
+// in which the attributes to unset have no value (ie, `nil`)
 func parseAttributes(attributes []string) map[string]interface{} {
 	result := make(map[string]interface{}, len(attributes))
 	for _, attr := range attributes {
-		data := strings.Split(attr, "=")
-		if len(data) > 1 {
+		data := strings.SplitN(attr, "=", 2) // the value may contain `=`
+		switch {
+		case len(data) > 1:
 			result[data[0]] = data[1]
-		} else {
-			result[data[0]] = ""
+		case strings.HasSuffix(attr, "!"):
+			result[strings.TrimSuffix(attr, "!")] = nil
+		case strings.HasPrefix(attr, "!"):
+			result[strings.TrimPrefix(attr, "!")] = nil
+		default:
+			result[attr] = ""
 		}
 	}
 	return result
diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index b5bcc07..8bd473c 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -92,6 +92,10 @@ func (a *contextAttributes) allAttributes() map[string]interface{} {
 	}
 	// imautables attributes should not be overridden, hence adding them after
 	for k, v := range a.immutableAttributes {
+		if v == nil { // unset in the configuration
+			delete(result, k)
+			continue
+		}
 		result[k] = v
 	}
 	return result
@@ -99,7 +103,7 @@ func (a *contextAttributes) allAttributes() map[string]interface{} {
 
 func (a *contextAttributes) get(k string) (interface{}, bool) {
 	if v, found := a.immutableAttributes[k]; found {
-		return v, true
+		return v, v != nil // `nil` if unset in the configuration
 	}
 	v, found := a.attributes[k]
 	return v, found
diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 05594ec..e40b988 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -52,6 +52,10 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	}
 	// attributes of the configuration take precedence
 	for name, value := range config.Attributes {
+		if value == nil { // unset in the configuration
+			delete(ctx.attributes, name)
+			continue
+		}
 		ctx.attributes[name] = value
 	}
 	return ctx
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 6ee6e7e..eb961b2 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -157,34 +157,39 @@ func (d *Document) SectionNumbers() (SectionNumbers, error) {
 // SectionNumbersWithAttributes is like `SectionNumbers`, but the given attributes (ie, those of the configuration)
 // take precedence over the declarations and resets in the document
 func (d *Document) SectionNumbersWithAttributes(attrs Attributes) (SectionNumbers, error) {
-	if attrs.Has(AttrSectionNumbering) || attrs.Has(AttrNumbered) {
-		numbers, _, err := traverseElements(d.Elements, true, true, "")
+	if isSectionNumberingSet(attrs) {
+		numbers, _, err := traverseElements(d.Elements, true, attrs, "")
 		return numbers, err
 	}
 	enabled := false
 	if header, _ := d.Header(); header != nil {
 		// lookup the `sectnums` or `numbered` attribute in the header
 		var err error
-		if _, enabled, err = traverseElements(header.Elements, false, false, ""); err != nil {
+		if _, enabled, err = traverseElements(header.Elements, false, attrs, ""); err != nil {
 			return nil, err
 		}
 	}
-	numbers, _, err := traverseElements(d.Elements, enabled, false, "") // disabled by default
+	numbers, _, err := traverseElements(d.Elements, enabled, attrs, "") // disabled by default
 	return numbers, err
 }
 
-func traverseElements(elements []interface{}, enabled, immutable bool, prefix string) (map[string]string, bool, error) {
+// isSectionNumberingSet returns true if the attributes enable the numbering (attributes without a value, ie, `nil`, are unset)
+func isSectionNumberingSet(attrs Attributes) bool {
+	return attrs[AttrSectionNumbering] != nil || attrs[AttrNumbered] != nil
+}
+
+func traverseElements(elements []interface{}, enabled bool, immutable Attributes, prefix string) (map[string]string, bool, error) {
 	result := map[string]string{}
 	counter := 0
 	for _, e := range elements {
 		switch e := e.(type) {
 		case *AttributeDeclaration:
-			if e.Name == AttrSectionNumbering || e.Name == AttrNumbered {
+			if (e.Name == AttrSectionNumbering || e.Name == AttrNumbered) && !immutable.Has(e.Name) {
 				enabled = true
 			}
 		case *AttributeReset:
 			if e.Name == AttrSectionNumbering || e.Name == AttrNumbered {
-				enabled = immutable
+				enabled = isSectionNumberingSet(immutable)
 			}
 		case *Preamble:
 			// may contain attribute declarations and resets
-- 
2.43.0


From 25cf37767e7ea849caef8b5f7c0d7f59775a5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 44/59] fix: do not add imagesdir again each time an image is
 rendered

---
 pkg/renderer/sgml/image.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index ad4d398..b3f8737 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -111,7 +111,9 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 
 func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) string {
 	if imagesdir, found := ctx.attributes.GetAsString(types.AttrImagesDir); found {
-		location.SetPathPrefix(imagesdir)
+		l := *location // leave the element as it is, since it may be rendered again (eg: in the title of a block with cross references)
+		l.SetPathPrefix(imagesdir)
+		location = &l
 	}
 	src := location.ToString()
 
-- 
2.43.0


From a1e986c0c505171eae321dfa1b3d7edc24fad060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:18 +0000
Subject: [PATCH 45/59] fix: process the content of single-line conditionals
 like any other line

---
 pkg/parser/document_preprocessing.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index bc2525c..910a609 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -33,8 +33,13 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 	c := conditions{}
 	scanner := newLineScanner(source)
 	t := newBlockDelimiterTracker()
-	for scanner.Scan() {
+	var content []byte // of the last conditional on a single line, if its condition holds
+	for content != nil || scanner.Scan() {
 		line := scanner.Bytes()
+		if content != nil {
+			// processed like any other line (eg: it may be the declaration of an attribute)
+			line, content = content, nil
+		}
 		element, err := Parse("", line, append(ctx.opts, Entrypoint("DocumentRawLine"))...)
 		if err != nil {
 			// log.Error(err)
@@ -91,9 +96,9 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 				ctx.opts = append(ctx.opts, t.withinDelimitedBlock())
 				b.WriteString(e.RawText())
 			case types.ConditionalInclusion:
-				if content, ok := e.SingleLineContent(); ok {
+				if l, ok := e.SingleLineContent(); ok {
 					if e.Eval(ctx.attributes.allAttributes()) {
-						b.WriteString(content)
+						content = []byte(l)
 					}
 				} else {
 					b.enabled = c.push(ctx, e)
-- 
2.43.0


From 95fe4c4f2b74129b1147b47c216b06b692d19eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:40 +0000
Subject: [PATCH 46/59] fix: accept section titles without any content or id
 (eg, attributes without a value)

---
 pkg/types/types.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index eb961b2..ecaafd4 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2535,13 +2535,16 @@ func (s *Section) SetTitle(title []interface{}) {
 		log.Debugf("setting section title: %s", spew.Sdump(title))
 	}
 	// inline ID attribute foud at the end is *moved* at the attributes level of the section
-	if id, ok := title[len(title)-1].(*Attribute); ok {
-		sectionID := stringify(id.Value)
-		s.AddAttributes(Attributes{
-			AttrID: sectionID,
-			// AttrCustomID: true,
-		})
-		title = title[:len(title)-1]
+	// (the title may be empty, eg if it only refers to attributes without a value)
+	if len(title) > 0 {
+		if id, ok := title[len(title)-1].(*Attribute); ok {
+			sectionID := stringify(id.Value)
+			s.AddAttributes(Attributes{
+				AttrID: sectionID,
+				// AttrCustomID: true,
+			})
+			title = title[:len(title)-1]
+		}
 	}
 	s.Title = TrimTrailingSpaces(title)
 }
@@ -2607,6 +2610,9 @@ func (s *Section) resolveID(attrs Attributes) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if id == "" { // no prefix, and no alphanumeric character in the title
+		id = DefaultIDPrefix
+	}
 	s.Attributes[AttrID] = id
 	log.Debugf("updated section id to '%s'", s.Attributes[AttrID])
 	return id, nil
@@ -2616,8 +2622,8 @@ var _ Referencable = &Section{}
 
 func (s *Section) Reference(refs ElementReferences) {
 	id := s.Attributes.GetAsStringWithDefault(AttrID, "")
-	if id != "" && s.Title != nil {
-		refs[id] = s.Title
+	if id != "" {
+		refs[id] = s.Title // may be empty
 	}
 }
 
-- 
2.43.0


From a38f304fa159f62598aaf37e7954faa82c4f9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 47/59] fix: accept attributes without a value in titles, link
 texts and paths of images

---
 ...document_processing_apply_substitutions.go | 28 +++++++++++++------
 pkg/types/types.go                            |  3 ++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index ef5f2e1..f0cb0d7 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -208,7 +208,7 @@ func applySubstitutionsOnWithLocation(ctx *ParseContext, b types.WithLocation, o
 			if err != nil {
 				return err
 			}
-			b.GetLocation().Path = types.Reduce(p)
+			b.GetLocation().SetPath(p)
 		}
 	}
 	return nil
@@ -279,14 +279,14 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			if err != nil {
 				return err
 			}
-			attrs[k] = types.Reduce(v)
+			setOrRemove(attrs, k, types.Reduce(v))
 		case types.AttrInlineLinkText:
 			subs := attributeSubstitutions()
 			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
 			if err != nil {
 				return err
 			}
-			attrs[k] = types.Reduce(v)
+			setOrRemove(attrs, k, types.Reduce(v))
 		case types.AttrCols:
 			s, err := serializePlainText(v) // TODO: call sgml.RenderPlainText?
 			if err != nil {
@@ -296,7 +296,7 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			if err != nil {
 				return err
 			}
-			attrs[k] = types.Reduce(v)
+			setOrRemove(attrs, k, types.Reduce(v))
 		default:
 			attrs[k] = v
 		}
@@ -304,6 +304,15 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 	return nil
 }
 
+// setOrRemove sets the attribute with the given value, or removes it if there is no value (anymore)
+func setOrRemove(attrs types.Attributes, key string, value interface{}) {
+	if value == nil {
+		delete(attrs, key)
+		return
+	}
+	attrs[key] = value
+}
+
 func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, subs *substitutions, opts ...Option) error {
 	// in some specific cases, we need to reparse values to support links and quoted texts
 	attrs := element.GetAttributes()
@@ -314,7 +323,7 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 			if err != nil {
 				return err
 			}
-			attrs[k] = types.Reduce(v)
+			setOrRemove(attrs, k, types.Reduce(v))
 		case types.AttrInlineLinkText:
 			// same as above, but do not allow for inline macros (eg: links).
 			// (with other substitutions, since `subs` also applies to the other attributes and elements)
@@ -326,7 +335,7 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 			if err != nil {
 				return err
 			}
-			attrs[k] = types.Reduce(v)
+			setOrRemove(attrs, k, types.Reduce(v))
 		default:
 			attrs[k] = v
 		}
@@ -416,7 +425,10 @@ func replaceAttributeRefsInSlicedValue(ctx *ParseContext, elements []interface{}
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("replaced attribute refs: %s", spew.Sdump(result))
 	}
-	return types.Reduce(result), nil
+	if v := types.Reduce(result); v != nil {
+		return v, nil
+	}
+	return "", nil // the referenced attributes have no value
 }
 
 func applySubstitutionsOnSlice(ctx *ParseContext, elements []interface{}, subs *substitutions, opts ...Option) ([]interface{}, error) {
@@ -522,7 +534,7 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 					if err != nil {
 						return nil, err
 					}
-					e.GetLocation().Path = types.Reduce(p)
+					e.GetLocation().SetPath(p)
 				}
 			}
 		}
diff --git a/pkg/types/types.go b/pkg/types/types.go
index ecaafd4..a9029ff 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3624,6 +3624,9 @@ func NewLocation(scheme interface{}, path []interface{}) (*Location, error) {
 
 func (l *Location) SetPath(path interface{}) {
 	p := Reduce(path)
+	if p == nil {
+		p = "" // empty path (eg: the referenced attributes have no value)
+	}
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("setting path in location: %v", p)
 	}
-- 
2.43.0


From 45d8c8737ff0e5a6e7bd621714675940b086eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:24 +0000
Subject: [PATCH 48/59] fix: render references to authors and to values of the
 front-matter which are not strings

---
 ...document_processing_apply_substitutions.go | 28 +++++++++++++++++++
 pkg/types/types.go                            |  4 +--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index f0cb0d7..1936ad1 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -592,15 +592,43 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 	case int, int64, uint64, float64, bool: // scalar value of the front-matter
 		return fmt.Sprint(v), true, nil
 	case []interface{}:
+		if s, ok := joinScalars(v); ok { // list in the front-matter
+			return s, true, nil
+		}
 		s, err := sgml.RenderPlainText(v)
 		return s, true, err
 	case *types.DocumentAuthorFullName:
 		return v.FullName(), true, nil
+	case []*types.DocumentAuthor:
+		names := make([]string, len(v))
+		for i, author := range v {
+			names[i] = author.FullName()
+		}
+		return strings.Join(names, ", "), true, nil
+	case *types.DocumentRevision, map[string]interface{}, map[interface{}]interface{}: // cannot be rendered as text
+		log.Warnf("unable to use the value of the attribute with key '%s': it is not a text", a.Name)
+		return "{" + a.Name + "}", false, nil
 	default:
 		return v, true, nil
 	}
 }
 
+// joinScalars returns the given scalar values, separated with a comma (or `false` if there are other kinds of values)
+func joinScalars(values []interface{}) (string, bool) {
+	result := make([]string, len(values))
+	for i, v := range values {
+		switch v := v.(type) {
+		case nil:
+			// keep an empty string
+		case string, int, int64, uint64, float64, bool:
+			result[i] = fmt.Sprint(v)
+		default:
+			return "", false
+		}
+	}
+	return strings.Join(result, ", "), true
+}
+
 func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, error) {
 	counter := ctx.counters[c.Name]
 	if counter == nil {
diff --git a/pkg/types/types.go b/pkg/types/types.go
index a9029ff..3f1b5b9 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -500,8 +500,8 @@ func key(k string, i int) string {
 }
 
 func initial(s string) string {
-	if len(s) > 0 {
-		return s[0:1]
+	for _, r := range s {
+		return string(r)
 	}
 	return ""
 }
-- 
2.43.0


From 4ab047035a3c364e5e5410150a6ffcd153ca5423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:48 +0000
Subject: [PATCH 49/59] fix: render lists in table cells, and empty cells in
 headers and footers of tables

---
 .../document_processing_arrange_lists.go      | 14 ++++
 pkg/renderer/sgml/table.go                    | 74 ++++++++++---------
 2 files changed, 54 insertions(+), 34 deletions(-)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index c7139a2..bea2f64 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -58,6 +58,20 @@ func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 				return nil, err
 			}
 			result = append(result, e)
+		case *types.Table:
+			log.Debug("checking elements in Table")
+			for _, row := range append([]*types.TableRow{e.Header, e.Footer}, e.Rows...) {
+				if row == nil {
+					continue
+				}
+				for _, c := range row.Cells {
+					var err error
+					if c.Elements, err = arrangeListElements(c.Elements); err != nil {
+						return nil, err
+					}
+				}
+			}
+			result = append(result, e)
 		case *types.ListElements:
 			log.Debug("arranging list elements in ListElements")
 			l, err := doArrangeListElements(e.Elements)
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index a098d8c..77f17e1 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -1,7 +1,6 @@
 package sgml
 
 import (
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -142,25 +141,19 @@ func (r *sgmlRenderer) renderTableHeader(ctx *context, h *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableHeaderCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
-	if len(c.Elements) == 1 {
-		if p, ok := c.Elements[0].(*types.Paragraph); ok {
-			content, err := r.renderInlineElements(ctx, p.Elements)
-			if err != nil {
-				return "", errors.Wrap(err, "unable to render header cell")
-			}
-			return r.execute(r.tableHeaderCell, struct {
-				HAlign  types.HAlign
-				VAlign  types.VAlign
-				Content string
-			}{
-				HAlign:  col.HAlign,
-				VAlign:  col.VAlign,
-				Content: content,
-			})
-		}
+	content, err := r.renderTableHeaderOrFooterCellElements(ctx, c)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render header cell")
 	}
-	return "", fmt.Errorf("invalid header content (expected a single paragraph)")
+	return r.execute(r.tableHeaderCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
 }
 
 func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols []*types.TableColumn) (string, error) {
@@ -189,25 +182,38 @@ func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableFooterCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
+	content, err := r.renderTableHeaderOrFooterCellElements(ctx, c)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render footer cell")
+	}
+	return r.execute(r.tableFooterCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
+}
+
+func (r *sgmlRenderer) renderTableHeaderOrFooterCellElements(ctx *context, c *types.TableCell) (string, error) {
+	// the content is usually within the first element of the cell, which should be a paragraph
 	if len(c.Elements) == 1 {
 		if p, ok := c.Elements[0].(*types.Paragraph); ok {
-			content, err := r.renderInlineElements(ctx, p.Elements)
-			if err != nil {
-				return "", errors.Wrap(err, "unable to render footer cell")
-			}
-			return r.execute(r.tableFooterCell, struct {
-				HAlign  types.HAlign
-				VAlign  types.VAlign
-				Content string
-			}{
-				HAlign:  col.HAlign,
-				VAlign:  col.VAlign,
-				Content: content,
-			})
+			return r.renderInlineElements(ctx, p.Elements)
+		}
+	}
+	// otherwise, the cell is empty or it contains blocks
+	content := &strings.Builder{}
+	for _, element := range c.Elements {
+		renderedElement, err := r.renderTableCellBlock(ctx, element)
+		if err != nil {
+			return "", err
 		}
+		content.WriteString(renderedElement)
 	}
-	return "", fmt.Errorf("invalid footer content (expected a single paragraph)")
+	return content.String(), nil
 }
 
 func (r *sgmlRenderer) renderTableBody(ctx *context, rows []*types.TableRow, columns []*types.TableColumn) (string, error) {
-- 
2.43.0


From 9f5873386ea805ed8ec628b5f0bfc1ca130f74fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:06 +0000
Subject: [PATCH 50/59] fix: collect the footnotes in delimited blocks, tables,
 titles of blocks, attached blocks and quoted text

---
 pkg/types/types.go | 152 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 109 insertions(+), 43 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 3f1b5b9..bc1a7a5 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -417,6 +417,14 @@ func (h *DocumentHeader) SetElements(elements []interface{}) error {
 	return nil
 }
 
+var _ WithFootnotes = &DocumentHeader{}
+
+// SubstituteFootnotes replaces the footnotes in the title of the document
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (h *DocumentHeader) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(h.Title, notes)
+}
+
 func (h *DocumentHeader) GetAttributes() Attributes {
 	return h.Attributes
 }
@@ -1009,14 +1017,7 @@ var _ WithFootnotes = &ListElements{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (l *ListElements) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range l.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			if log.IsLevelEnabled(log.DebugLevel) {
-				log.Debugf("collecting footnotes in element of type '%T'", e)
-			}
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotes(l.Elements, notes)
 }
 
 type ListKind string
@@ -1060,6 +1061,14 @@ func NewListContinuation(offset int, Element interface{}) (*ListContinuation, er
 	}, nil
 }
 
+var _ WithFootnotes = &ListContinuation{}
+
+// SubstituteFootnotes replaces the footnotes in the attached block
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (c *ListContinuation) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes([]interface{}{c.Element}, notes)
+}
+
 var _ WithElementAddition = &ListContinuation{}
 
 func (c *ListContinuation) AddElement(element interface{}) error {
@@ -1189,11 +1198,8 @@ var _ WithFootnotes = &CalloutListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *CalloutListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 const (
@@ -1322,11 +1328,8 @@ var _ WithFootnotes = &OrderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *OrderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // OrderedListElementPrefix the prefix used to construct an OrderedListElement
@@ -1488,11 +1491,8 @@ var _ WithFootnotes = &UnorderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *UnorderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // UnorderedListElementCheckStyle the check style that applies on an unordered list item
@@ -1752,16 +1752,9 @@ var _ WithFootnotes = &LabeledListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *LabeledListElement) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range e.Term {
-		if note, ok := element.(*Footnote); ok {
-			e.Term[i] = notes.Reference(note)
-		}
-	}
-	for _, element := range e.Elements {
-		if e, ok := element.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Term, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // ------------------------------------------
@@ -1868,11 +1861,8 @@ var _ WithFootnotes = &Paragraph{}
 // SubstituteFootnotes replaces the footnotes in the paragraph lines
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (p *Paragraph) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range p.Elements {
-		if note, ok := element.(*Footnote); ok {
-			p.Elements[i] = notes.Reference(note)
-		}
-	}
+	substituteFootnotesInTitle(p.Attributes, notes)
+	substituteFootnotes(p.Elements, notes)
 }
 
 // ------------------------------------------
@@ -2087,6 +2077,14 @@ func (i *ImageBlock) GetLocation() *Location {
 	return i.Location
 }
 
+var _ WithFootnotes = &ImageBlock{}
+
+// SubstituteFootnotes replaces the footnotes in the title of the image
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (i *ImageBlock) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(i.Attributes, notes)
+}
+
 var _ Referencable = &ImageBlock{}
 
 func (i *ImageBlock) Reference(refs ElementReferences) {
@@ -2207,6 +2205,26 @@ type WithFootnotes interface {
 	SubstituteFootnotes(existing *Footnotes)
 }
 
+// substituteFootnotes replaces the footnotes in the given elements, including
+// the ones which are nested in the elements, with footnote references
+func substituteFootnotes(elements []interface{}, notes *Footnotes) {
+	for i, element := range elements {
+		switch e := element.(type) {
+		case *Footnote:
+			elements[i] = notes.Reference(e)
+		case WithFootnotes:
+			e.SubstituteFootnotes(notes)
+		}
+	}
+}
+
+// substituteFootnotesInTitle replaces the footnotes in the title (if there is one) of a block with footnote references
+func substituteFootnotesInTitle(attributes Attributes, notes *Footnotes) {
+	if title, ok := attributes[AttrTitle].([]interface{}); ok {
+		substituteFootnotes(title, notes)
+	}
+}
+
 // Footnotes the footnotes of a document. Footnotes are "collected"
 // during the parsing phase and displayed at the bottom of the document
 // during the rendering.
@@ -2248,6 +2266,7 @@ func (f *Footnotes) Reference(note *Footnote) *FootnoteReference {
 		note.ID = f.sequence.nextVal()
 		f.Notes = append(f.Notes, note)
 		r.ID = note.ID
+		substituteFootnotes(note.Elements, f) // in case of footnotes within this footnote
 	} else if id, found := f.indexOf(note); found {
 		r.ID = id
 		r.Duplicate = true
@@ -2392,6 +2411,15 @@ func (b *DelimitedBlock) SetElements(elements []interface{}) error {
 	return nil
 }
 
+var _ WithFootnotes = &DelimitedBlock{}
+
+// SubstituteFootnotes replaces the footnotes in the title and in the content of the block
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (b *DelimitedBlock) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(b.Attributes, notes)
+	substituteFootnotes(b.Elements, notes)
+}
+
 var _ WithAttributes = &DelimitedBlock{}
 
 // GetAttributes returns the attributes of this paragraph so that substitutions can be applied onto them
@@ -2640,11 +2668,7 @@ var _ WithFootnotes = &Section{}
 // SubstituteFootnotes replaces the footnotes in the section title
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (s *Section) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range s.Title {
-		if note, ok := element.(*Footnote); ok {
-			s.Title[i] = notes.Reference(note)
-		}
-	}
+	substituteFootnotes(s.Title, notes)
 }
 
 // ------------------------------------------
@@ -2837,6 +2861,14 @@ func (t *QuotedText) SetElements(elements []interface{}) error {
 	return nil
 }
 
+var _ WithFootnotes = &QuotedText{}
+
+// SubstituteFootnotes replaces the footnotes in the quoted text
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *QuotedText) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(t.Elements, notes)
+}
+
 var _ WithAttributes = &QuotedText{}
 
 // GetAttributes returns the attributes of this element
@@ -3892,6 +3924,19 @@ func (t *Table) SetElements(elements []interface{}) error {
 	return nil
 }
 
+var _ WithFootnotes = &Table{}
+
+// SubstituteFootnotes replaces the footnotes in the title and in the cells of the table
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *Table) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(t.Attributes, notes)
+	t.Header.SubstituteFootnotes(notes)
+	for _, r := range t.Rows {
+		r.SubstituteFootnotes(notes)
+	}
+	t.Footer.SubstituteFootnotes(notes)
+}
+
 var _ WithAttributes = &Table{}
 
 func (t *Table) GetAttributes() Attributes {
@@ -4216,6 +4261,19 @@ func (r *TableRow) SetElements(elements []interface{}) error {
 	return nil
 }
 
+var _ WithFootnotes = &TableRow{}
+
+// SubstituteFootnotes replaces the footnotes in the cells of the row
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (r *TableRow) SubstituteFootnotes(notes *Footnotes) {
+	if r == nil { // no header or no footer in the table
+		return
+	}
+	for _, c := range r.Cells {
+		c.SubstituteFootnotes(notes)
+	}
+}
+
 type TableCell struct {
 	Format   string
 	Elements []interface{}
@@ -4265,3 +4323,11 @@ func (c *TableCell) SetElements(elements []interface{}) error {
 	c.Elements = elements
 	return nil
 }
+
+var _ WithFootnotes = &TableCell{}
+
+// SubstituteFootnotes replaces the footnotes in the cell
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (c *TableCell) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(c.Elements, notes)
+}
-- 
2.43.0


From fa5526ab6081bc95267d4adaf0eef0dc5c73936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:27 +0000
Subject: [PATCH 51/59] fix: render the footer of a table after its body

---
 pkg/renderer/sgml/table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 77f17e1..5b93553 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -70,11 +70,11 @@ func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error)
 	if err != nil {
 		return "", errors.Wrap(err, "failed to render table")
 	}
-	footer, err := r.renderTableFooter(ctx, t.Footer, columns)
+	body, err := r.renderTableBody(ctx, t.Rows, columns)
 	if err != nil {
 		return "", errors.Wrap(err, "failed to render table")
 	}
-	body, err := r.renderTableBody(ctx, t.Rows, columns)
+	footer, err := r.renderTableFooter(ctx, t.Footer, columns)
 	if err != nil {
 		return "", errors.Wrap(err, "failed to render table")
 	}
-- 
2.43.0


From 4b5c19a5701c65109892781abaadc8be024284bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:11 +0000
Subject: [PATCH 52/59] fix: give sections unique IDs regardless of the case,
 and refer to IDs with upper case letters

---
 pkg/parser/document_processing_aggregate.go |  8 ++++++-
 pkg/renderer/sgml/context.go                | 23 +++++++++++++++++++++
 pkg/renderer/sgml/cross_reference.go        |  8 +++----
 pkg/renderer/sgml/html5/cross_reference.go  |  2 +-
 pkg/types/types.go                          |  3 ++-
 5 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index effabce..6ec2c57 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"strings"
 	"time"
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
@@ -26,6 +27,7 @@ func Aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment)
 func aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment) (*types.Document, error) {
 	attrs := ctx.attributes
 	refs := types.ElementReferences{}
+	ids := types.ElementReferences{} // the IDs already in use, as they will be rendered (in lower case for the sections)
 	doc := &types.Document{}
 	// TODO: update `toc.MaxDepth` when `AttrTableOfContentsLevels` is declared afterwards
 	toc := types.NewTableOfContents(attrs.getAsIntWithDefault(types.AttrTableOfContentsLevels, 2))
@@ -74,9 +76,10 @@ func aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment)
 			case *types.BlankLine, *types.SinglelineComment:
 				// ignore
 			case *types.Section:
-				if err := e.ResolveID(attrs.allAttributes(), refs); err != nil {
+				if err := e.ResolveID(attrs.allAttributes(), ids); err != nil {
 					return nil, err
 				}
+				ids[strings.ToLower(e.GetID())] = e.Title
 				toc.Add(e)
 			}
 
@@ -88,6 +91,9 @@ func aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment)
 			// also, check if the element has refs
 			if e, ok := element.(types.Referencable); ok {
 				e.Reference(refs)
+				if _, ok := element.(*types.Section); !ok {
+					e.Reference(ids)
+				}
 			}
 		}
 		log.Debugf("time to aggregate fragment at %d: %d microseconds", f.Position.Start, time.Since(start).Microseconds())
diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index e40b988..ec29e2f 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -1,6 +1,8 @@
 package sgml
 
 import (
+	"strings"
+
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 )
@@ -15,6 +17,7 @@ type context struct {
 	attributes           types.Attributes
 	immutableAttributes  types.Attributes // set in the configuration: the document cannot change them
 	elementReferences    types.ElementReferences
+	sectionIDs           map[string]bool             // the IDs of the sections, which are rendered in lower case
 	resolvingXrefs       map[string]bool             // the IDs of the cross references whose label is being rendered
 	userMacros           map[*types.UserMacro]string // the output of the user macros which were executed
 	hasHeader            bool
@@ -30,10 +33,12 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		attributes:          types.Attributes{},
 		immutableAttributes: config.Attributes,
 		elementReferences:   doc.ElementReferences,
+		sectionIDs:          map[string]bool{},
 		resolvingXrefs:      map[string]bool{},
 		userMacros:          map[*types.UserMacro]string{},
 		hasHeader:           header != nil,
 	}
+	ctx.addSectionIDs(doc.Elements)
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
 	ctx.attributes[types.AttrFigureCaption] = "Figure"
 	ctx.attributes[types.AttrExampleCaption] = "Example"
@@ -61,6 +66,24 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	return ctx
 }
 
+// addSectionIDs retains the IDs of the given sections and of their child sections
+func (ctx *context) addSectionIDs(elements []interface{}) {
+	for _, e := range elements {
+		if s, ok := e.(*types.Section); ok {
+			ctx.sectionIDs[s.GetID()] = true
+			ctx.addSectionIDs(s.Elements)
+		}
+	}
+}
+
+// renderedID returns the given ID as it is rendered in the element: in lower case for a section, or unchanged
+func (ctx *context) renderedID(id string) string {
+	if ctx.sectionIDs[id] {
+		return strings.ToLower(id)
+	}
+	return id
+}
+
 // setAttribute sets the attribute declared in the document, unless it was set in the configuration
 func (ctx *context) setAttribute(name string, value interface{}) {
 	if _, found := ctx.immutableAttributes[name]; !found {
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 3976e09..4545750 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -59,7 +59,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		Href  string
 		Label string
 	}{
-		Href:  xrefID,
+		Href:  ctx.renderedID(xrefID),
 		Label: label,
 	})
 }
@@ -82,7 +82,7 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 		Href  string
 		Label string
 	}{
-		Href:  getCrossReferenceLocation(xref),
+		Href:  getCrossReferenceLocation(ctx, xref),
 		Label: label,
 	})
 }
@@ -96,11 +96,11 @@ func defaultXrefLabel(xref *types.ExternalCrossReference) string {
 	return loc[:len(loc)-len(ext)] + ".html"
 }
 
-func getCrossReferenceLocation(xref *types.ExternalCrossReference) string {
+func getCrossReferenceLocation(ctx *context, xref *types.ExternalCrossReference) string {
 	loc := xref.Location.ToDisplayString()
 	ext := filepath.Ext(loc)
 	if ext == "" { // internal reference
-		return "#" + loc
+		return "#" + ctx.renderedID(loc)
 	}
 	return loc[:len(loc)-len(ext)] + ".html" // TODO output extension
 }
diff --git a/pkg/renderer/sgml/html5/cross_reference.go b/pkg/renderer/sgml/html5/cross_reference.go
index 7be4da8..0488cb2 100644
--- a/pkg/renderer/sgml/html5/cross_reference.go
+++ b/pkg/renderer/sgml/html5/cross_reference.go
@@ -1,6 +1,6 @@
 package html5
 
 const (
-	internalCrossReferenceTmpl = `<a href="#{{ toLower .Href }}">{{ .Label }}</a>`
+	internalCrossReferenceTmpl = `<a href="#{{ .Href }}">{{ .Label }}</a>`
 	externalCrossReferenceTmpl = `<a href="{{ .Href }}">{{ .Label }}</a>`
 )
diff --git a/pkg/types/types.go b/pkg/types/types.go
index bc1a7a5..5327f51 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2614,7 +2614,8 @@ func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
 			id = base + "_" + strconv.Itoa(i)
 			log.Debugf("updated section id to '%s' (to avoid duplicate refs)", s.Attributes[AttrID])
 		}
-		if _, exists := refs[id]; !exists {
+		// IDs of sections are rendered in lower case
+		if _, exists := refs[strings.ToLower(id)]; !exists {
 			s.Attributes[AttrID] = id
 			break
 		}
-- 
2.43.0


From c92797561aa36cb8c41ac6cab297d3bc33389dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:21 +0000
Subject: [PATCH 53/59] fix: restore the elements in labels, attributes,
 footnotes and passthroughs after the substitutions

---
 ...document_processing_apply_substitutions.go | 143 ++++++++++++++++++
 pkg/renderer/sgml/cross_reference.go          |   6 +
 pkg/renderer/sgml/image.go                    |   3 +
 3 files changed, 152 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 1936ad1..dae6070 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"fmt"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -816,6 +817,10 @@ func (p *placeholders) add(element interface{}) *types.ElementPlaceHolder {
 
 // replace the placeholders with their original element in the given elements
 func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
+	elements, err := p.restoreStrings(elements)
+	if err != nil {
+		return nil, err
+	}
 	for i, e := range elements {
 		switch e := e.(type) {
 		case *types.ElementPlaceHolder:
@@ -828,11 +833,149 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 			if err := e.SetElements(elmts); err != nil {
 				return nil, err
 			}
+		case *types.InternalCrossReference:
+			if id, ok := e.ID.(string); ok {
+				id, err := p.restoreText(id)
+				if err != nil {
+					return nil, err
+				}
+				e.ID = id
+			}
+			label, err := p.restoreValue(e.Label)
+			if err != nil {
+				return nil, err
+			}
+			e.Label = label
+		case *types.Footnote:
+			elmts, err := p.restore(e.Elements)
+			if err != nil {
+				return nil, err
+			}
+			e.Elements = elmts
+		case *types.InlinePassthrough:
+			elmts, err := p.restore(e.Elements)
+			if err != nil {
+				return nil, err
+			}
+			e.Elements = elmts
+		case *types.IndexTerm:
+			elmts, err := p.restore(e.Term)
+			if err != nil {
+				return nil, err
+			}
+			e.Term = elmts
+		case *types.InlineMenu:
+			for i, s := range e.Path {
+				s, err := p.restoreText(s)
+				if err != nil {
+					return nil, err
+				}
+				e.Path[i] = s
+			}
+		}
+		if err := p.restoreAttributes(e); err != nil {
+			return nil, err
 		}
 	}
 	return elements, nil
 }
 
+// replace the placeholders which were not parsed as such with their original element, in the given elements
+func (p *placeholders) restoreStrings(elements []interface{}) ([]interface{}, error) {
+	for i, e := range elements {
+		s, ok := e.(*types.StringElement)
+		if !ok || !placeholderRegexp.MatchString(s.Content) {
+			continue
+		}
+		v, err := p.restoreValue(s.Content)
+		if err != nil {
+			return nil, err
+		}
+		others, err := p.restoreStrings(elements[i+1:])
+		if err != nil {
+			return nil, err
+		}
+		result := append([]interface{}{}, elements[:i]...)
+		if v, ok := v.([]interface{}); ok {
+			result = append(result, v...)
+		} else {
+			result = append(result, e)
+		}
+		return append(result, others...), nil
+	}
+	return elements, nil
+}
+
+// replace the placeholders with their original element in the values of the attributes of the given element
+func (p *placeholders) restoreAttributes(element interface{}) error {
+	var attrs types.Attributes
+	switch e := element.(type) {
+	case types.WithAttributes:
+		attrs = e.GetAttributes()
+	case *types.Icon:
+		attrs = e.Attributes
+	case *types.InlineButton:
+		attrs = e.Attributes
+	case *types.UserMacro:
+		attrs = e.Attributes
+	}
+	for name, value := range attrs {
+		value, err := p.restoreValue(value)
+		if err != nil {
+			return err
+		}
+		attrs[name] = value
+	}
+	return nil
+}
+
+var placeholderRegexp = regexp.MustCompile("\uFFFD([0-9]+)\uFFFD")
+
+// replace the placeholders with their original element in the given value (of an attribute, or label)
+func (p *placeholders) restoreValue(value interface{}) (interface{}, error) {
+	switch value := value.(type) {
+	case *types.ElementPlaceHolder:
+		return []interface{}{p.elements[value.Ref]}, nil
+	case []interface{}:
+		return p.restore(value)
+	case string:
+		elements := []interface{}{}
+		offset := 0
+		for _, m := range placeholderRegexp.FindAllStringSubmatchIndex(value, -1) {
+			element, found := p.elements[value[m[2]:m[3]]]
+			if !found {
+				continue
+			}
+			if m[0] > offset {
+				elements = append(elements, &types.StringElement{Content: value[offset:m[0]]})
+			}
+			elements = append(elements, element)
+			offset = m[1]
+		}
+		if len(elements) == 0 {
+			return value, nil
+		}
+		if offset < len(value) {
+			elements = append(elements, &types.StringElement{Content: value[offset:]})
+		}
+		return elements, nil
+	default:
+		return value, nil
+	}
+}
+
+// replace the placeholders with their original element, as plain text, in the given text
+func (p *placeholders) restoreText(text string) (string, error) {
+	v, err := p.restoreValue(text)
+	if err != nil {
+		return "", err
+	}
+	if v, ok := v.([]interface{}); ok {
+		return sgml.RenderPlainText(v)
+	}
+	return text, nil
+}
+
 // ----------------------------------------------
 // Support for experimental macros at parse time
 // ----------------------------------------------
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 4545750..d0ed587 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -22,6 +22,12 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 	}
 	if xrefLabel, ok := xref.Label.(string); ok {
 		label = xrefLabel
+	} else if xrefLabel, ok := xref.Label.([]interface{}); ok {
+		// label with elements other than text
+		var err error
+		if label, err = r.renderInlineElements(ctx, xrefLabel); err != nil {
+			return "", err
+		}
 	} else if target, found := ctx.elementReferences[xrefID]; found && !ctx.resolvingXrefs[xrefID] {
 		// the title of the target may contain a reference to the target itself, even if indirectly
 		ctx.resolvingXrefs[xrefID] = true
diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index b3f8737..e46c56d 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -137,6 +137,9 @@ func (r *sgmlRenderer) renderImageAlt(attrs types.Attributes, path string) (stri
 	if alt, found := attrs.GetAsString(types.AttrImageAlt); found {
 		return alt, nil
 	}
+	if alt, ok := attrs[types.AttrImageAlt].([]interface{}); ok { // contains elements other than text
+		return RenderPlainText(alt)
+	}
 	u, err := url.Parse(path)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render image")
-- 
2.43.0


From 3b0cd7c08a17b5e88e3dcb6f04dadaf325c0f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:29 +0000
Subject: [PATCH 54/59] fix: replace attribute references in labels of cross
 references, buttons and menus, and in attributes of icons and user macros

---
 ...document_processing_apply_substitutions.go | 53 +++++++++++++++++++
 pkg/renderer/sgml/elements.go                 |  2 +-
 pkg/renderer/sgml/inline_button.go            | 11 +++-
 pkg/types/types.go                            | 28 ++++++----
 4 files changed, 81 insertions(+), 13 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index dae6070..6a4a512 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -523,6 +523,30 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				return nil, err
 			}
 			e.Elements = elmts
+		case *types.Icon:
+			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
+				return nil, err
+			}
+		case *types.UserMacro:
+			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
+				return nil, err
+			}
+		case *types.InlineButton: // in the label
+			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
+				return nil, err
+			}
+		case *types.InlineMenu: // in the subpaths
+			if err := replaceAttributeRefsInMenu(ctx, e); err != nil {
+				return nil, err
+			}
+		case *types.InternalCrossReference: // in the label
+			label, err := replaceAttributeRefsInElements(ctx, asElements(e.Label))
+			if err != nil {
+				return nil, err
+			}
+			if e.Label = types.Reduce(label); e.Label == "" {
+				e.Label = nil // use the default label
+			}
 		case types.WithLocation: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
@@ -550,6 +574,35 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 	return elements, nil
 }
 
+func replaceAttributeRefsInMenu(ctx *ParseContext, m *types.InlineMenu) error {
+	if m.Attributes == nil {
+		return nil
+	}
+	elements, err := replaceAttributeRefsInElements(ctx, asElements(m.Attributes[types.AttrPositional1]))
+	if err != nil {
+		return err
+	}
+	subpaths, err := sgml.RenderPlainText(elements)
+	if err != nil {
+		return err
+	}
+	m.AddSubpaths(subpaths)
+	m.Attributes = nil // done
+	return nil
+}
+
+// asElements returns the given value as a slice
+func asElements(v interface{}) []interface{} {
+	switch v := v.(type) {
+	case nil:
+		return nil
+	case []interface{}:
+		return v
+	default:
+		return []interface{}{v}
+	}
+}
+
 func replaceAttributeRefsInElements(ctx *ParseContext, elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
 		switch e := e.(type) {
diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index 275ef13..9836fc9 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -69,7 +69,7 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 	case *types.ImageBlock:
 		return r.renderImageBlock(ctx, e)
 	case *types.InlineButton:
-		return r.renderInlineButton(e)
+		return r.renderInlineButton(ctx, e)
 	case *types.InlineImage:
 		return r.renderInlineImage(ctx, e)
 	case *types.InlineMenu:
diff --git a/pkg/renderer/sgml/inline_button.go b/pkg/renderer/sgml/inline_button.go
index cc6a677..ca77f00 100644
--- a/pkg/renderer/sgml/inline_button.go
+++ b/pkg/renderer/sgml/inline_button.go
@@ -7,13 +7,20 @@ import (
 	"github.com/pkg/errors"
 )
 
-func (r *sgmlRenderer) renderInlineButton(b *types.InlineButton) (string, error) {
+func (r *sgmlRenderer) renderInlineButton(ctx *context, b *types.InlineButton) (string, error) {
+	label := b.Attributes.GetAsStringWithDefault(types.AttrButtonLabel, "")
+	if elements, ok := b.Attributes[types.AttrButtonLabel].([]interface{}); ok { // contains elements other than text
+		var err error
+		if label, err = r.renderInlineElements(ctx, elements); err != nil {
+			return "", errors.Wrap(err, "unable to render inline button")
+		}
+	}
 	result := &strings.Builder{}
 	tmpl, err := r.inlineButton()
 	if err != nil {
 		return "", errors.Wrap(err, "unable to load inline button template")
 	}
-	if err = tmpl.Execute(result, b.Attributes[types.AttrButtonLabel]); err != nil {
+	if err = tmpl.Execute(result, label); err != nil {
 		return "", errors.Wrap(err, "unable to render inline button")
 	}
 	return result.String(), nil
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 5327f51..931b743 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2011,21 +2011,29 @@ func NewInlineButton(attrs Attributes) (*InlineButton, error) {
 
 // InlineMenu a menu with optional subpaths defined in its attributes (requires `experimental` doc attribute to be set)
 type InlineMenu struct {
-	Path []string
+	Path       []string
+	Attributes Attributes // only set if the subpaths contain elements other than text (eg: references to attributes)
 }
 
 // NewInlineMenu initializes a new `InlineMenu`
 func NewInlineMenu(id string, attrs Attributes) (*InlineMenu, error) {
-	path := []string{id}
-	if s, ok := attrs[AttrPositional1].(string); ok {
-		subpaths := strings.Split(s, ">")
-		for _, s := range subpaths {
-			path = append(path, strings.TrimSpace(s))
-		}
+	m := &InlineMenu{
+		Path: []string{id},
+	}
+	switch subpaths := attrs[AttrPositional1].(type) {
+	case string:
+		m.AddSubpaths(subpaths)
+	case []interface{}:
+		m.Attributes = attrs
+	}
+	return m, nil
+}
+
+// AddSubpaths appends the given subpaths, which are separated with a `>`
+func (m *InlineMenu) AddSubpaths(subpaths string) {
+	for _, s := range strings.Split(subpaths, ">") {
+		m.Path = append(m.Path, strings.TrimSpace(s))
 	}
-	return &InlineMenu{
-		Path: path,
-	}, nil
 }
 
 // ------------------------------------------
-- 
2.43.0


From b6e7a7a3b6bbeee3ede3719a950c13f50b14678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:21 +0000
Subject: [PATCH 55/59] fix: let references by title point to the section when
 its id was made unique

---
 pkg/renderer/sgml/context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index ec29e2f..3efeafe 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -71,6 +71,7 @@ func (ctx *context) addSectionIDs(elements []interface{}) {
 	for _, e := range elements {
 		if s, ok := e.(*types.Section); ok {
 			ctx.sectionIDs[s.GetID()] = true
+			ctx.sectionIDs[strings.ToLower(s.GetID())] = true
 			ctx.addSectionIDs(s.Elements)
 		}
 	}
@@ -78,8 +79,12 @@ func (ctx *context) addSectionIDs(elements []interface{}) {
 
 // renderedID returns the given ID as it is rendered in the element: in lower case for a section, or unchanged
 func (ctx *context) renderedID(id string) string {
+	lower := strings.ToLower(id)
 	if ctx.sectionIDs[id] {
-		return strings.ToLower(id)
+		return lower
+	}
+	if _, found := ctx.elementReferences[id]; !found && ctx.sectionIDs[lower] {
+		return lower
 	}
 	return id
 }
-- 
2.43.0


From 0559cfe706a8b4681214af8a039d9c2a9c36212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:12 +0000
Subject: [PATCH 56/59] fix: begin hidden counters with their start value

---
 pkg/parser/parser.go  | 42 +++++++++++++++++++++---------------------
 pkg/parser/parser.peg |  2 +-
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a5d6543..ef8c74e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -48876,7 +48876,7 @@ func (p *parser) callonFileInclusion88() (interface{}, error) {
 }
 
 func (c *current) onFileInclusion77(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFileInclusion77() (interface{}, error) {
@@ -53117,7 +53117,7 @@ func (p *parser) callonAttributeDeclarationValueElement90() (interface{}, error)
 }
 
 func (c *current) onAttributeDeclarationValueElement79(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonAttributeDeclarationValueElement79() (interface{}, error) {
@@ -53344,7 +53344,7 @@ func (p *parser) callonBlockAttributes85() (interface{}, error) {
 }
 
 func (c *current) onBlockAttributes74(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonBlockAttributes74() (interface{}, error) {
@@ -54056,7 +54056,7 @@ func (p *parser) callonShortHandAttributeValue71() (interface{}, error) {
 }
 
 func (c *current) onShortHandAttributeValue60(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonShortHandAttributeValue60() (interface{}, error) {
@@ -54459,7 +54459,7 @@ func (p *parser) callonSingleQuotedAttributeValueContent69() (interface{}, error
 }
 
 func (c *current) onSingleQuotedAttributeValueContent58(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSingleQuotedAttributeValueContent58() (interface{}, error) {
@@ -54732,7 +54732,7 @@ func (p *parser) callonDoubleQuotedAttributeValueContent69() (interface{}, error
 }
 
 func (c *current) onDoubleQuotedAttributeValueContent58(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonDoubleQuotedAttributeValueContent58() (interface{}, error) {
@@ -54971,7 +54971,7 @@ func (p *parser) callonUnquotedAttributeValue71() (interface{}, error) {
 }
 
 func (c *current) onUnquotedAttributeValue60(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonUnquotedAttributeValue60() (interface{}, error) {
@@ -55340,7 +55340,7 @@ func (p *parser) callonExternalCrossReference85() (interface{}, error) {
 }
 
 func (c *current) onExternalCrossReference74(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalCrossReference74() (interface{}, error) {
@@ -57295,7 +57295,7 @@ func (p *parser) callonImageBlock95() (interface{}, error) {
 }
 
 func (c *current) onImageBlock84(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonImageBlock84() (interface{}, error) {
@@ -57597,7 +57597,7 @@ func (p *parser) callonInlineImage97() (interface{}, error) {
 }
 
 func (c *current) onInlineImage86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonInlineImage86() (interface{}, error) {
@@ -58084,7 +58084,7 @@ func (p *parser) callonFootnoteElement128() (interface{}, error) {
 }
 
 func (c *current) onFootnoteElement117(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFootnoteElement117() (interface{}, error) {
@@ -58413,7 +58413,7 @@ func (p *parser) callonLink97() (interface{}, error) {
 }
 
 func (c *current) onLink86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonLink86() (interface{}, error) {
@@ -58773,7 +58773,7 @@ func (p *parser) callonRelativeLink96() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink85(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonRelativeLink85() (interface{}, error) {
@@ -59051,7 +59051,7 @@ func (p *parser) callonRelativeLink213() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink202(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonRelativeLink202() (interface{}, error) {
@@ -59329,7 +59329,7 @@ func (p *parser) callonExternalLink97() (interface{}, error) {
 }
 
 func (c *current) onExternalLink86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalLink86() (interface{}, error) {
@@ -59607,7 +59607,7 @@ func (p *parser) callonExternalLink215() (interface{}, error) {
 }
 
 func (c *current) onExternalLink204(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalLink204() (interface{}, error) {
@@ -68681,7 +68681,7 @@ func (p *parser) callonQuotedTextElement104() (interface{}, error) {
 }
 
 func (c *current) onQuotedTextElement93(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonQuotedTextElement93() (interface{}, error) {
@@ -70055,7 +70055,7 @@ func (p *parser) callonSectionTitleElement126() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement115(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSectionTitleElement115() (interface{}, error) {
@@ -70298,7 +70298,7 @@ func (p *parser) callonSectionTitleElement226() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement215(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSectionTitleElement215() (interface{}, error) {
@@ -70761,7 +70761,7 @@ func (p *parser) callonNormalGroup118() (interface{}, error) {
 }
 
 func (c *current) onNormalGroup107(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonNormalGroup107() (interface{}, error) {
@@ -72404,7 +72404,7 @@ func (p *parser) callonFileLocation81() (interface{}, error) {
 }
 
 func (c *current) onFileLocation70(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFileLocation70() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index c34aa24..adb5cd4 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -660,7 +660,7 @@ CounterSubstitution1 <- "{counter:" name:AttributeName start:(CounterStart)? "}"
 }
 
 CounterSubstitution2 <- "{counter2:" name:AttributeName start:(CounterStart)? "}" {
-    return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+    return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 CounterStart <- ":" start:([A-Za-z] {
-- 
2.43.0


From deb646db8c15b7dd70b105f1990e940e41201796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:38 +0000
Subject: [PATCH 57/59] fix: render the table of contents when its title is
 declared without a value

---
 pkg/renderer/sgml/table_of_contents.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index ba14ddf..6728b00 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -101,6 +101,8 @@ func (r *sgmlRenderer) renderTableOfContentsTitle(ctx *context) (string, error)
 		return "Table of Contents", nil // default value // TODO: use a constant?
 	}
 	switch title := title.(type) {
+	case nil:
+		return "", nil // declared without a value
 	case string:
 		return title, nil
 	case []interface{}:
-- 
2.43.0


From 16fc5161bba8e976b411cb0d3084a6feb3595523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:05 +0000
Subject: [PATCH 58/59] fix: leave the content of source paragraphs as it is,
 like that of source blocks

---
 pkg/parser/document_substitutions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index f2bd2ce..73299e4 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -144,9 +144,9 @@ func defaultSubstitutions(b types.WithElements) *substitutions {
 			return verbatimSubstitutions()
 		}
 	case *types.Paragraph:
-		// if listing paragraph:
+		// if listing or source paragraph:
 		switch b.GetAttributes().GetAsStringWithDefault(types.AttrStyle, "") {
-		case types.Listing:
+		case types.Listing, types.Source:
 			return verbatimSubstitutions()
 		case types.Passthrough:
 			return noneSubstitutions()
-- 
2.43.0


From 099665a5129af87a5397162f361debe5659ec290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:52 +0000
Subject: [PATCH 59/59] fix: restore the elements replaced within the roles of
 texts, in titles

---
 pkg/parser/document_processing_apply_substitutions.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 6a4a512..2e975a1 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -991,6 +991,15 @@ func (p *placeholders) restoreValue(value interface{}) (interface{}, error) {
 		return []interface{}{p.elements[value.Ref]}, nil
 	case []interface{}:
 		return p.restore(value)
+	case types.Roles:
+		for i, r := range value {
+			r, err := p.restoreValue(r)
+			if err != nil {
+				return nil, err
+			}
+			value[i] = r
+		}
+		return value, nil
 	case string:
 		elements := []interface{}{}
 		offset := 0
-- 
2.43.0

