//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	realos "os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

var verifDir = "/verif"

var snippetsOnce sync.Once
var snippetsAll []string

// snippets returns sources taken from the test suite of the repository
func snippets() []string {
	snippetsOnce.Do(func() {
		var all []string
		b, err := realos.ReadFile(filepath.Join(verifDir, "corpus", "snippets.json"))
		if err == nil {
			err = json.Unmarshal(b, &all)
		}
		if err != nil {
			panic(err)
		}
		for _, s := range all {
			if strings.Contains(s, "include::") || len(s) > 3000 {
				continue
			}
			snippetsAll = append(snippetsAll, s)
		}
	})
	return snippetsAll
}

// DocGen writes random documents
type DocGen struct {
	r       *Rng
	n       int
	depth   int
	level   int
	ids     []string
	attrs   []string
	notes   []string
	Macros  []string // user macros the document may use
	Heavy   bool     // ... in place of words, with a value of its own for each
	Incl    []string // files it may include
	counter []string
	noSect  bool
	titles  []string // titles which are repeated and referred to
	slot    int      // depth of elements within elements
}

func (g *DocGen) word() string {
	g.n++
	if g.Heavy && g.r.P(8) {
		return g.macro()
	}
	switch g.r.W(6, 1, 1, 1) {
	case 1:
		return g.r.Pick("naïve", "日本語", "Ωmega", "straße", "emoji🎉")
	case 2:
		return g.r.Pick("a<b", "x & y", "\"quoted\"", "it's", "(C)", "...", "->", "--", "100%")
	case 3:
		return g.r.Pick("Lorem", "ipsum", "dolor", "sit", "amet", "elit")
	}
	return fmt.Sprintf("w%d", g.n)
}

func (g *DocGen) words(a, b int) string {
	n := g.r.R(a, b)
	w := make([]string, n)
	for i := range w {
		w[i] = g.word()
	}
	return strings.Join(w, " ")
}

func (g *DocGen) macro() string {
	g.n++
	return g.Macros[g.r.N(len(g.Macros))] + fmt.Sprintf(":u%d", g.n) + g.r.Pick("[]", "[]", "[suffix=s1]")
}

func (g *DocGen) inline() string {
	r := g.r
	if g.Heavy && r.P(25) {
		return g.macro()
	}
	switch r.N(30) {
	case 28, 29:
		return g.slots()
	case 0:
		return "*" + g.words(1, 3) + "*"
	case 1:
		return "_" + g.words(1, 3) + "_"
	case 2:
		return "`" + g.word() + "`"
	case 3:
		return "#" + g.word() + "#"
	case 4:
		return "*" + g.word() + " _" + g.word() + "_ `" + g.word() + "`*"
	case 5:
		return "https://example.org/" + fmt.Sprint(g.r.N(9)) + "[" + g.words(1, 2) + "]"
	case 6:
		return "link:doc.adoc[" + g.word() + ",window=_blank]"
	case 7:
		if r.P(35) {
			t := g.knownTitle()
			switch {
			case r.P(25):
				t = "_" + strings.Join(strings.Fields(strings.ToLower(t)), "_") + r.Pick("", "", "_2", "_3")
			case r.P(25):
				t += "," + g.words(1, 2)
			}
			if r.P(15) {
				return "xref:" + strings.ReplaceAll(t, ",", "[") + r.Pick("", "[]")
			}
			return "<<" + t + ">>"
		}
		if len(g.ids) > 0 {
			return "<<" + g.ids[r.N(len(g.ids))] + ">>"
		}
		return "<<nowhere,label>>"
	case 8:
		g.notes = append(g.notes, "x")
		return "footnote:[" + g.words(1, 4) + "]"
	case 9:
		id := r.Pick("fa", "fb", "fc")
		if r.P(50) {
			return "footnote:" + id + "[" + g.words(1, 3) + "]"
		}
		return "footnote:" + id + "[]"
	case 10:
		return "image:" + r.Pick("a.png", "b.svg", "dir/c.jpg") + "[" + g.word() + "]"
	case 11:
		return "icon:" + r.Pick("tags", "heart", "file-o") + "[" + r.Pick("", "", "", "title=\"a *b* & {at1}\"", "2x,title=`x`", "alt=\"_e_\"") + "]"
	case 12:
		return "((" + g.word() + "))"
	case 13:
		return "(((" + g.word() + ", " + g.word() + ")))"
	case 14:
		c := r.Pick("cnta", "cntb", "cntc")
		g.counter = append(g.counter, c)
		return "{counter:" + c + "}"
	case 15:
		return "{counter2:" + r.Pick("cnta", "cntb") + "}"
	case 16:
		if len(g.attrs) > 0 {
			return "{" + g.attrs[r.N(len(g.attrs))] + "}"
		}
		return "{undefined}"
	case 17:
		return "+" + g.word() + "+"
	case 18:
		return "pass:q[*" + g.word() + "*]"
	case 19:
		return "H~2~O x^2^"
	case 20:
		return "\"`" + g.word() + "`\""
	case 21:
		if len(g.Macros) > 0 {
			m := g.Macros[r.N(len(g.Macros))]
			return m + ":" + fmt.Sprintf("v%d", g.r.N(50)) + "[]"
		}
		return "foo:bar[]"
	case 22:
		id := fmt.Sprintf("anc%d", g.r.N(30))
		g.ids = append(g.ids, id)
		return "[[" + id + "]]" + g.word()
	case 23:
		return "[." + r.Pick("role1", "role2") + "]#" + g.word() + "#"
	case 24:
		return "{" + r.Pick("nbsp", "amp", "lt", "zwsp", "startsb", "cpp") + "}"
	case 25:
		return "mailto:a@b.org[]"
	case 26:
		return "**" + g.word() + "**" + g.word()
	}
	return "{" + r.Pick("docname", "doctitle", "author", "revnumber", "sectnums", "asciidoctor") + "}"
}

// slots writes an inline element with texts which have something to evaluate in its places for text
func (g *DocGen) slots() string {
	r := g.r
	if g.slot > 2 {
		return g.word()
	}
	g.slot++
	defer func() { g.slot-- }()
	t := func() string {
		s := r.Pick("", "", g.word(), g.word()+" ")
		switch r.N(9) {
		case 0:
			s += g.words(1, 2)
		case 1, 2:
			s += "{" + r.Pick("nbsp", "lt", "plus", "zwsp", "empty", "at1", "at2", "amp", "apos") + "}"
		case 3:
			s += "+" + g.word() + "+"
		case 4:
			s += r.Pick("it's", "(C)", "a -- b", "...", "a & b", "<b>", "\\{at1}", "\\*x*", "a=b", "\"q\"", "'q'", "a,b", "#x", "%y", ".z")
		case 5:
			s += r.Pick("*", "_", "`", "#", "**", "`+") + g.word() + r.Pick("*", "_", "`", "#", "**", "+`")
		case 6:
			s += "{counter:" + r.Pick("cnta", "cntb") + "}"
		default:
			s += g.inline()
		}
		return s + r.Pick("", "", g.word(), " "+g.word())
	}
	id := fmt.Sprintf("id%d", r.N(40))
	switch r.N(26) {
	case 0, 1:
		return "<<" + id + "," + t() + ">>"
	case 2:
		return "<<" + t() + ">>"
	case 3:
		return "xref:" + id + "[" + t() + "]"
	case 4:
		return "xref:" + t() + "[" + t() + "]"
	case 5:
		return "link:" + t() + "[" + t() + "]"
	case 6:
		return "https://example.org/" + t()
	case 7:
		return "https://example.org/" + t() + "[" + t() + r.Pick("", ",window="+t()) + "]"
	case 8:
		return "image:a.png[" + t() + "]"
	case 9:
		return "image:" + t() + ".png[alt=" + t() + ",title=" + t() + ",role=" + t() + "]"
	case 10:
		return "footnote:[" + t() + "]"
	case 11:
		return "footnote:" + t() + "[" + t() + "]"
	case 12:
		return "((" + t() + "))"
	case 13:
		return "(((" + t() + "," + t() + ")))"
	case 14:
		return "icon:" + r.Pick("tags", t()) + "[" + r.Pick(t(), "alt="+t()) + "]"
	case 15:
		return "[[" + t() + "]]" + g.word()
	case 16:
		return "[[" + id + "," + t() + "]]" + g.word()
	case 17:
		return "[" + r.Pick(".", "#", "") + t() + "]#" + t() + "#"
	case 18:
		return r.Pick("kbd", "btn") + ":[" + t() + "]"
	case 19:
		return "menu:" + t() + "[" + t() + "]"
	case 20:
		return "pass:" + r.Pick("q", "a", "", "c", "m", "n") + "[" + t() + "]"
	case 21:
		q := r.Pick("*", "_", "`", "#", "**", "__", "``", "~", "^", "+", "++")
		return q + t() + q
	case 22:
		return "mailto:a@b.org[" + t() + r.Pick("", ","+t()+","+t()) + "]"
	case 23:
		return "\"`" + t() + "`\""
	case 24:
		return "+++" + t() + "+++"
	}
	return r.Pick("foo", "bar") + ":" + t() + "[" + t() + "]"
}

// title writes the title of a section or block
func (g *DocGen) title(a, b int) string {
	r := g.r
	if r.P(25) {
		return g.knownTitle()
	}
	t := g.words(a, b)
	switch {
	case r.P(4):
		t = g.lone()
	case r.P(15):
		t += " " + g.inline()
	case r.P(3):
		t += " [[" + fmt.Sprintf("id%d", r.N(40)) + "]]"
	case r.P(3):
		t = "[[" + fmt.Sprintf("id%d", r.N(40)) + "]]" + t
	}
	if r.P(10) && !strings.ContainsAny(t, "{<>[]") {
		g.titles = append(g.titles, t)
	}
	return t
}

func (g *DocGen) knownTitle() string {
	r := g.r
	if len(g.titles) == 0 || (len(g.titles) < 4 && r.P(20)) {
		g.titles = append(g.titles, r.Pick("Getting started", "Same title", "x & y", "A *bold* title", "In {at1} detail", "Overview", "Notes -- and (C)"))
	}
	return g.titles[r.N(len(g.titles))]
}

// lone is a text which consists of references to attributes (without a value, maybe)
func (g *DocGen) lone() string {
	if g.r.P(40) {
		return g.r.Pick("{nothing}", "{nothing}", "{nothing}{nothing}", "{empty}", "{nothing}{empty}", "*{nothing}*", "{nothing} {nothing}", "+{nothing}", "{nothing}:: x", "link:{nothing}[{nothing}]", "image:{nothing}[{nothing}]", "[[{nothing}]]", "{nothing}[[i]]", "<<{nothing}>>", "footnote:[{nothing}]", "icon:{nothing}[]", "((({nothing})))")
	}
	t := "{" + g.r.Pick("at1", "at2", "at3", "authors", "revision", "empty") + "}"
	if g.r.P(25) {
		t += g.r.Pick("", " ") + "{" + g.r.Pick("at1", "at2", "at3", "empty") + "}"
	}
	return t
}

func (g *DocGen) text() string {
	if g.r.P(3) {
		return g.lone()
	}
	n := g.r.R(1, 7)
	p := make([]string, n)
	for i := range p {
		if g.r.P(35) {
			p[i] = g.inline()
		} else {
			p[i] = g.words(1, 5)
		}
	}
	return strings.Join(p, " ")
}

func (g *DocGen) lines(a, b int) string {
	n := g.r.R(a, b)
	l := make([]string, n)
	for i := range l {
		l[i] = g.text()
		if g.r.P(6) {
			l[i] += " +"
		}
	}
	return strings.Join(l, "\n")
}

func (g *DocGen) blockAttrs() string {
	r := g.r
	var b strings.Builder
	if r.P(2) {
		b.WriteString(g.subs())
	}
	if r.P(22) {
		fmt.Fprintf(&b, ".%s\n", g.title(1, 3))
	}
	if r.P(10) {
		id := fmt.Sprintf("id%d", r.N(40))
		g.ids = append(g.ids, id)
		fmt.Fprintf(&b, "[#%s]\n", id)
	}
	if r.P(8) {
		fmt.Fprintf(&b, "[.%s]\n", r.Pick("lead", "big", "r1.r2"))
	}
	if r.P(3) {
		id := fmt.Sprintf("id%d", r.N(40))
		fmt.Fprintf(&b, "[[%s]]\n", id)
	}
	if r.P(5) {
		b.WriteString(g.oddAttrs())
	}
	if r.P(2) {
		// several attributes whose values need to be evaluated
		v := func() string {
			return r.Pick("{counter:cnta}", "{counter:cnta}", "{counter:cntb}", "{counter2:cnta}", "{at1}", "{at2}", "{nosuch}", "{set:at1:v}")
		}
		fmt.Fprintf(&b, "%s[#i%s,.r%s,role=x%s,opts=o%s,alt=%s]\n", r.Pick("", ".Title "+v()+" "+v()+"\n"), v(), v(), v(), v(), v())
	}
	return b.String()
}

func (g *DocGen) oddValue() string {
	return g.r.Pick("", "", "0", "-1", "1", "999", "99999999999999999999", "-99999999999", "1.5", "abc", "*", "1*", "0*", "3*", ",", ",,", "1,,2", "a,b", "^.>2a", "none", "all", "{at1}", "{nosuch}",
		"{counter:cnta}", "\"q\"", "'", "<b>", "é", "+", "-", "%", "#x", ".y", "x y", "attributes", "quotes+", "-quotes", "+macros", "nosub", "1..3", "..", "5..1", "a..b", "1;3", "*;!x", "!**")
}

// oddAttrs writes lines of block attributes with unusual names, values and combinations
func (g *DocGen) oddAttrs() string {
	r := g.r
	var b strings.Builder
	for i := r.R(1, 2); i > 0; i-- {
		var p []string
		for j := r.R(1, 3); j > 0; j-- {
			switch r.N(4) {
			case 0:
				p = append(p, g.oddValue())
			case 1:
				p = append(p, r.Pick("quote", "verse", "source", "listing", "literal", "pass", "NOTE", "abstract", "qanda", "horizontal", "%header", "%footer", "%interactive", "%hardbreaks", "%linenums", "stem", "discrete", "appendix", "colophon", "square", "upperroman", "loweralpha"))
			default:
				v := g.oddValue()
				if strings.ContainsAny(v, ",\" ") || r.P(30) {
					v = "\"" + strings.ReplaceAll(v, "\"", "\\\"") + "\""
				}
				p = append(p, r.Pick("cols", "width", "start", "subs", "role", "id", "opts", "options", "format", "frame", "grid", "stripes", "separator", "indent", "highlight", "linenums", "language", "caption", "title", "style", "attribution", "citetitle", "alt", "height", "link", "reftext", "tabsize", "float", "align", "icon", "level")+"="+v)
			}
		}
		b.WriteString("[" + strings.Join(p, ",") + "]\n")
	}
	return b.String()
}

// oddDecl declares an attribute which has a meaning, with an unusual value
func (g *DocGen) oddDecl() string {
	r := g.r
	n := r.Pick("toc", "toclevels", "toc-title", "sectnums", "sectnumlevels", "sectids", "sectlinks", "sectanchors", "idprefix", "idseparator", "leveloffset", "figure-caption", "table-caption", "example-caption", "listing-caption", "icons", "iconsdir", "imagesdir", "doctype", "data-uri", "unicode", "hardbreaks", "noheader", "nofooter", "notitle", "showtitle", "source-highlighter", "chroma-style", "pygments-css", "version-label", "note-caption", "tip-caption", "author", "authors", "email", "revnumber", "revdate", "description", "lang", "manname", "backend", "docname", "experimental", "tabsize", "xrefstyle", "appendix-caption", "last-update-label", "stylesheet", "css-signature", "doctitle", "title", "outfilesuffix", "relfilesuffix", "kroki-server-url", "counter", "leveloffset")
	if r.P(15) {
		return ":" + n + "!:\n"
	}
	if r.P(15) {
		return ":!" + n + ":\n"
	}
	v := g.oddValue()
	if r.P(20) {
		v = g.text()
	}
	return ":" + n + ": " + v + "\n"
}

func (g *DocGen) oddInclude() string {
	return g.r.Pick("leveloffset", "lines", "tag", "tags", "indent", "opts", "encoding") + "=" + g.r.Pick("", "-1", "-5", "+0", "0", "1", "9", "-2", "+99", "+9999999999", "-9999999999", "1..2", "1..-1", "3..1", "1;3", "1,3", "2..", "..2", "t1", "t1;t2", "!t1", "*", "**", "!*", "**;!t1", "abc", "optional", "utf-8")
}

func (g *DocGen) list(kind int, depth int) string {
	r := g.r
	var b strings.Builder
	n := r.R(1, 5)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			fmt.Fprintf(&b, "%s %s\n", strings.Repeat("*", depth), g.text())
		case 1:
			fmt.Fprintf(&b, "%s %s\n", strings.Repeat(".", depth), g.text())
		case 2:
			fmt.Fprintf(&b, "%s%s %s\n", g.words(1, 2), strings.Repeat(":", depth+1), g.text())
		case 3:
			fmt.Fprintf(&b, "* [%s] %s\n", r.Pick("x", " ", "*"), g.text())
		case 4:
			fmt.Fprintf(&b, "- %s\n", g.text())
		case 5:
			fmt.Fprintf(&b, "%d. %s\n", i+1, g.text())
		}
		if r.P(15) && kind < 3 {
			b.WriteString("+\n")
			b.WriteString(g.leaf())
			b.WriteString("\n")
		}
		if depth < 4 && r.P(18) && kind < 3 {
			b.WriteString(g.list(r.N(2), depth+1))
		}
		if r.P(6) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func (g *DocGen) leaf() string {
	r := g.r
	switch r.N(5) {
	case 0:
		return "----\n" + g.code() + "\n----"
	case 1:
		return "....\n" + g.code() + "\n...."
	case 2:
		return "NOTE: " + g.text()
	case 3:
		return "image::" + r.Pick("a.png", "b.svg") + "[]"
	}
	return g.lines(1, 2)
}

// subs writes the list of the substitutions of a block
func (g *DocGen) subs() string {
	r := g.r
	mode := r.N(4)
	var p []string
	for i := r.R(1, 3); i > 0; i-- {
		v := r.Pick("attributes", "macros", "quotes", "replacements", "post_replacements", "callouts", "specialchars")
		switch mode {
		case 0:
			v = "+" + v
		case 1:
			v = r.Pick("+"+v, "-"+v, v+"+")
		case 2:
			v = r.Pick(v, v, "normal", "none", "verbatim")
		default:
			v = "+" + v
		}
		p = append(p, v)
	}
	return "[subs=\"" + strings.Join(p, ",") + "\"]\n"
}

func (g *DocGen) code() string {
	n := g.r.R(1, 5)
	l := make([]string, n)
	for i := range l {
		switch g.r.N(6) {
		case 0:
			l[i] = ""
		case 1:
			l[i] = "  if a < b && c { // <1>"
		case 2:
			l[i] = "* not a list"
		case 3:
			l[i] = "{sectnums} {nosuch}"
			if g.r.P(50) {
				// (what the substitutions of the block make a difference to)
				l[i] = "*" + g.word() + "* {at1} -> https://example.org[x] (C) <b> " + g.word()
			}
		default:
			l[i] = "\t" + g.words(1, 5)
		}
	}
	if strings.TrimSpace(strings.Join(l, "")) == "" {
		l[0] = "code"
	}
	return strings.Join(l, "\n")
}

func (g *DocGen) table() string {
	r := g.r
	cols := r.R(1, 4)
	var b strings.Builder
	if r.P(6) {
		b.WriteString(g.oddAttrs())
	}
	switch r.N(4) {
	case 0:
		b.WriteString("[cols=\"" + strings.TrimSuffix(strings.Repeat("1,", cols), ",") + "\"]\n")
	case 1:
		b.WriteString("[%header,cols=\"" + strings.TrimSuffix(strings.Repeat(r.Pick("1,", "2,", "^1,", "a,"), cols), ",") + "\"]\n")
	case 2:
		b.WriteString("[%header%footer,cols=" + fmt.Sprint(cols) + "*]\n")
	}
	b.WriteString("|===\n")
	rows := r.R(1, 4)
	for i := 0; i < rows; i++ {
		for c := 0; c < cols; c++ {
			if i == rows-1 && r.P(10) {
				break // incomplete
			}
			b.WriteString(r.Pick("|", "|", "|", "|", "|", "|", "a|", "2+|", ".2+^|", "3*|", "| |", "||") + g.words(0, 3) + " ")
			if r.P(10) {
				b.WriteString(g.inline() + " ")
			}
		}
		b.WriteString("\n")
		if i == 0 && r.P(50) {
			b.WriteString("\n")
		}
	}
	b.WriteString("|===\n")
	return b.String()
}

func (g *DocGen) delimited(depth int) string {
	r := g.r
	inner := func() string {
		n := r.R(1, 3)
		var p []string
		for i := 0; i < n; i++ {
			if depth < 2 && r.P(25) {
				p = append(p, strings.TrimRight(g.delimited(depth+1), "\n"))
			} else if r.P(25) {
				p = append(p, strings.TrimRight(g.list(r.N(3), 1), "\n"))
			} else {
				p = append(p, g.lines(1, 2))
			}
		}
		return strings.Join(p, "\n\n")
	}
	ext := strings.Repeat("=", depth)
	subs := ""
	if r.P(15) {
		subs = g.subs()
	}
	switch r.N(13) {
	case 0:
		return subs + "----\n" + g.code() + "\n----\n"
	case 1:
		return subs + "[source," + r.Pick("go", "java", "ruby") + r.Pick("", ",linenums") + "]\n----\n" + g.code() + "\n----\n"
	case 2:
		return subs + "....\n" + g.code() + "\n....\n"
	case 3:
		return "====" + ext + "\n" + inner() + "\n====" + ext + "\n"
	case 4:
		return "****" + strings.Repeat("*", depth) + "\n" + inner() + "\n****" + strings.Repeat("*", depth) + "\n"
	case 5:
		return "[quote, " + g.word() + ", " + g.word() + "]\n____\n" + inner() + "\n____\n"
	case 6:
		return "[verse, " + g.word() + "]\n____\n" + g.lines(1, 3) + "\n____\n"
	case 7:
		return subs + "++++\n<p>" + fmt.Sprint(r.N(99)) + "</p>\n++++\n"
	case 8:
		return subs + "```" + r.Pick("", "go") + "\n" + g.code() + "\n```\n"
	case 9:
		return "[" + r.Pick("NOTE", "TIP", "WARNING", "IMPORTANT", "CAUTION") + "]\n====" + ext + "\n" + inner() + "\n====" + ext + "\n"
	case 10:
		return "////\n" + g.lines(1, 2) + "\n////\n"
	case 11:
		return "--\n" + g.lines(1, 2) + "\n--\n"
	}
	return subs + "[listing]\n" + g.words(3, 6) + "\n"
}

var wordRE = regexp.MustCompile(`\bw[0-9]+\b`)

// themed writes one of the few blocks which the documents of a case have in common: as is, or with other words
func (g *DocGen) themed() string {
	r := g.r
	t := NewRng(r.theme, uint64(r.N(3)))
	o := &DocGen{r: t, noSect: g.noSect, level: g.level, depth: 1}
	x := ""
	// (the attributes of these blocks are often their own)
	a := o
	if r.P(60) {
		a = &DocGen{r: r, noSect: g.noSect, level: g.level, depth: 1}
	}
	switch t.W(4, 3, 2, 2, 2, 6, 4) {
	case 0:
		x = a.subs() + t.Pick("----\n", "....\n", "```\n")
		x += o.code() + "\n" + o.code() + "\n" + x[strings.Index(x, "\n")+1:]
	case 1:
		x = "[source," + a.r.Pick("go", "java", "ruby") + a.r.Pick("", ",linenums", ",subs=\"+quotes\"") + "]\n----\n" + o.code() + "\n----\n"
	case 2:
		x = a.blockAttrs() + o.table()
	case 3:
		x = a.blockAttrs() + "image::" + t.Pick("a.png", "b.svg", "dir/c.jpg") + "[" + o.words(0, 2) + "]\n"
	case 4:
		x = a.blockAttrs() + o.list(t.N(6), 1)
	case 5:
		x = o.Block()
	default:
		s := snippets()
		x = strings.TrimRight(s[t.N(len(s))], "\n") + "\n"
		if g.noSect && strings.Contains(x, "\n= ") {
			x = o.lines(1, 2) + "\n"
		}
	}
	if r.P(50) {
		x = wordRE.ReplaceAllStringFunc(x, func(string) string { return "w" + strconv.Itoa(100+r.N(900)) })
	}
	return x
}

// Block writes a block
func (g *DocGen) Block() string {
	r := g.r
	if r.theme != 0 && g.depth == 0 && r.P(30) {
		return g.themed()
	}
	switch r.W(30, 14, 14, 16, 6, 5, 5, 4, 3, 3, 2, 3, 4, 3, 2) {
	case 0:
		return g.blockAttrs() + g.lines(1, 4) + "\n"
	case 1:
		if g.noSect {
			return g.lines(1, 2) + "\n"
		}
		g.level = r.R(1, min(g.level+1, 5))
		s := ""
		if r.P(15) {
			id := fmt.Sprintf("sec%d", r.N(40))
			g.ids = append(g.ids, id)
			s = "[#" + id + "]\n"
		}
		t := g.title(1, 3)
		if r.P(20) {
			t = r.Pick("Dup", "Same Title")
		}
		return s + strings.Repeat("=", g.level+1) + " " + t + "\n"
	case 2:
		return g.blockAttrs() + g.list(r.N(6), 1)
	case 3:
		return g.blockAttrs() + g.delimited(0)
	case 4:
		return g.blockAttrs() + g.table()
	case 5:
		return g.blockAttrs() + "image::" + r.Pick("a.png", "b.svg", "dir/c.jpg") + "[" + g.words(0, 2) + "]\n"
	case 6:
		if r.P(25) {
			return g.oddDecl()
		}
		n := r.Pick("at1", "at2", "at3", "at-four")
		g.attrs = append(g.attrs, n)
		switch r.N(4) {
		case 0:
			return ":" + n + "!:\n"
		case 1:
			return ":!" + n + ":\n"
		}
		return ":" + n + ":" + g.attrValue() + "\n"
	case 7:
		return r.Pick("NOTE", "TIP", "WARNING") + ": " + g.lines(1, 2) + "\n"
	case 8:
		return r.Pick("'''", "***", "---", "<<<") + "\n"
	case 9:
		n := r.Pick("at1", "at2", "at3", "nope")
		switch r.N(4) {
		case 0:
			return "ifdef::" + n + "[]\n" + g.lines(1, 2) + "\nendif::[]\n"
		case 1:
			return "ifndef::" + n + "[]\n" + g.lines(1, 2) + "\nendif::[]\n"
		case 2:
			return "ifdef::" + n + "[" + g.words(1, 3) + "]\n"
		}
		return "ifeval::[\"{" + n + "}\" == \"x\"]\n" + g.lines(1, 2) + "\nendif::[]\n"
	case 10:
		return " literal " + g.words(1, 4) + "\n"
	case 11:
		if len(g.Macros) > 0 {
			return g.Macros[r.N(len(g.Macros))] + "::" + fmt.Sprintf("v%d", r.N(50)) + "[suffix=" + g.r.Pick("s1", "s2") + "]\n"
		}
		return "// comment " + g.words(1, 3) + "\n"
	case 12:
		if len(g.Incl) > 0 {
			return "include::" + g.Incl[r.N(len(g.Incl))] + "[" + r.Pick("", "", "leveloffset=+1", "lines=1..3", "tag=t1", g.oddInclude()) + "]\n"
		}
		return g.lines(1, 2) + "\n"
	case 13:
		s := snippets()
		x := s[r.N(len(s))]
		if g.noSect && strings.Contains(x, "\n= ") {
			return g.lines(1, 2) + "\n"
		}
		return strings.TrimRight(x, "\n") + "\n"
	}
	return "[qanda]\n" + g.list(2, 1)
}

// attrValue is the value of an attribute, with the space before it
func (g *DocGen) attrValue() string {
	r := g.r
	switch r.W(60, 15, 10, 7, 4, 4) {
	case 1:
		return "" // (texts with nothing else become empty)
	case 2:
		return " " + g.words(0, 2) + " {" + r.Pick("at1", "at2", "at3", "at-four", "docname") + "}"
	case 3:
		return " " + g.inline()
	case 4:
		return " " + g.word() + " \\\n  " + g.word()
	case 5:
		return " " + g.oddValue()
	}
	return " " + g.words(1, 3)
}

// frontMatter writes a front-matter with values of all kinds
func (g *DocGen) frontMatter() string {
	r := g.r
	var b strings.Builder
	b.WriteString("---\n")
	for i := r.R(0, 4); i > 0; i-- {
		n := r.Pick("at1", "at2", "at3", "author", "authors", "tags", "title", "draft", "toc", "sectnums", "idprefix")
		if strings.Contains(b.String(), "\n"+n+":") {
			continue
		}
		b.WriteString(n + ": " + r.Pick("plain", "12", "1.5", "true", "\"a: b\"", "[a, b]", "[1, true, ~]", "[]", "{x: 1, y: [2]}", "[[a], {b: c}]", "~", "", "2020-01-02", "\n  - a\n  - b", "|\n  line 1\n  line 2") + "\n")
	}
	b.WriteString("---\n\n")
	return b.String()
}

// Header writes the header of a document
func (g *DocGen) Header() string {
	r := g.r
	var b strings.Builder
	if !r.P(75) {
		return ""
	}
	b.WriteString("= " + g.words(1, 4) + "\n")
	if r.P(30) {
		b.WriteString(r.Pick("Jane Doe <jane@example.org>", "John Foo Bar", "A B <a@b.c>; C D <c@d.e>", "Élodie Œuf; 真 央") + "\n")
		if r.P(50) {
			b.WriteString(r.Pick("v1.0, 2020-01-01: First", "1.2.3", "v2, June 1") + "\n")
		}
	}
	for _, a := range []string{":toc:", ":toc: preamble", ":sectnums:", ":at1: header value", ":at2:" + g.attrValue(), ":at1:", ":idprefix: id_", ":idseparator: -", ":icons: font", ":source-highlighter: " + r.Pick("chroma", "pygments"), ":experimental:", ":figure-caption!:", ":table-caption: Tab", ":version-label: Rev", ":showtitle!:", ":imagesdir: ./img", ":hardbreaks:", ":sectanchors:"} {
		if r.P(9) {
			b.WriteString(a + "\n")
		}
	}
	for r.P(12) {
		b.WriteString(g.oddDecl())
	}
	if r.P(40) {
		b.WriteString(":nothing:\n")
	}
	b.WriteString("\n")
	if r.P(10) {
		b.WriteString("toc::[]\n\n")
	}
	return b.String()
}

// Doc writes a document of about n blocks
func (g *DocGen) Doc(n int) string {
	var b strings.Builder
	g.level = 0
	if g.r.P(6) {
		b.WriteString(g.frontMatter())
	}
	b.WriteString(g.Header())
	for i := 0; i < n; i++ {
		b.WriteString(g.Block())
		if !g.r.P(4) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// RandomDoc returns a document; kinds of documents are mixed
func RandomDoc(r *Rng, macros, incl []string) string {
	g := &DocGen{r: r, Macros: macros, Incl: incl}
	if r.P(1) {
		return "\ufeff" + g.Doc(r.R(1, 6))
	}
	switch r.W(30, 40, 12, 10, 8) {
	case 0:
		return g.Doc(r.R(1, 6))
	case 1:
		return g.Doc(r.R(5, 25))
	case 2:
		return g.Doc(r.R(25, 70))
	case 3:
		s := snippets()
		return s[r.N(len(s))]
	}
	s := snippets()
	var p []string
	for i := r.R(2, 8); i > 0; i-- {
		p = append(p, strings.TrimRight(s[r.N(len(s))], "\n"))
	}
	return strings.Join(p, "\n\n") + "\n"
}

// Manpage returns a document of the manpage doctype, which may have problems
func Manpage(r *Rng) string {
	g := &DocGen{r: r}
	var b strings.Builder
	b.WriteString("= eve(1)\nAndrew Stanton\nv1.0.0\n:doctype: manpage\n:manmanual: EVE\n:mansource: EVE\n\n")
	switch r.N(6) {
	case 0:
		b.WriteString("== Name\n\neve - analyzes an image\n\n== Synopsis\n\n*eve* [_OPTION_]... _FILE_...\n\n")
	case 1:
		b.WriteString("== Name\n\neve - analyzes an image\n\n")
	case 2:
		b.WriteString("== Synopsis\n\n*eve* foo\n\n")
	case 3:
		b.WriteString("== Name\n\n* foo\n\n== Synopsis\n\nbar\n\n")
	case 4:
		b.WriteString("preamble text\n\n== Name\n\neve - x\n\n== Synopsis\n\nbar\n\n")
	}
	for i := r.N(4); i > 0; i-- {
		b.WriteString("== " + g.words(1, 2) + "\n\n" + g.lines(1, 2) + "\n\n")
	}
	return b.String()
}
