//go:build go1.21

package main

import (
	"fmt"
	"html"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// A reference model of what a document means: a document is a tree of items, from which both its source
// and the text of its rendition are computed.

// MPart is a piece of inline text
type MPart struct {
	K string `json:"k"`
	N string `json:"n,omitempty"`
	V string `json:"v,omitempty"`
	W string `json:"w,omitempty"` // formatting around it

	Sub []MPart `json:"sub,omitempty"` // (macros) within quoted text
}

// MItem is a block, a declaration or a directive
type MItem struct {
	K      string    `json:"k"`
	N      string    `json:"n,omitempty"`
	V      string    `json:"v,omitempty"`
	C      string    `json:"c,omitempty"`
	L      int       `json:"l,omitempty"`
	A      string    `json:"a,omitempty"`   // a line of attributes in front of the block
	Cap    string    `json:"cap,omitempty"` // a caption of its own
	T      []MPart   `json:"t,omitempty"`
	P      [][]MPart `json:"p,omitempty"`
	Items  []MItem   `json:"items,omitempty"`
	Raw    []string  `json:"raw,omitempty"` // lines of a file which is included in a verbatim block
	RawSel string    `json:"raw_sel,omitempty"`
	L2     int       `json:"l2,omitempty"`
	Tail   []MPart   `json:"tail,omitempty"` // a line after a block which is attached to an item
}

// cellList is the list in the k-th cell of a table, if there is one
func (it *MItem) cellList(k int) *MItem {
	for i := range it.Items {
		if it.Items[i].K == "cell" && it.Items[i].L2 == k && len(it.Items[i].P) > 0 && it.V == "lines" && k >= it.L {
			return &it.Items[i]
		}
	}
	return nil
}

// MDoc is a document
type MDoc struct {
	Title   []MPart `json:"title,omitempty"`
	Author  string  `json:"author,omitempty"`
	Rev     string  `json:"rev,omitempty"`
	Header  []MItem `json:"header,omitempty"`
	Items   []MItem `json:"items,omitempty"`
	Root    string  `json:"root"`
	FromMem bool    `json:"from_mem,omitempty"`
}

// MModel is what the generator knows: the documents converted by the operations of the tasks
type MModel struct {
	Docs [][]MDoc `json:"docs"` // by task and operation
}

type mnote struct{ text string }

type mhead struct {
	level int
	id    string
	text  string // with the number
}

type mwalk struct {
	api     map[string]string
	unset   map[string]bool // by the configuration
	attrs   map[string]string
	ctr     map[string]string
	cap     map[string]int
	notes   []string
	named   map[string]int
	blockID string            // of the block which is being written
	titles  map[string]string // ids of sections and their titles
	known   map[string]string // titles of the first pass
	heads   []mhead
	slugs   map[string]int
	numOn   []bool // by level
	num     [7]int
	out     strings.Builder // expected text
	active  bool
	files   []File
	nfile   int
	root    string
	offset  int
	abs     *absOffset // of the included file with an absolute offset, if any
	invalid string
	macros  map[string]MacroSpec
	calls   []mcall
	excl    []string
	inHead  bool

	imgs      []string // the sources of the images
	ownCap    string
	hasCap    bool
	titleImgs map[string][]string // of the titles of blocks
	knownImgs map[string][]string
	dirMoved  bool // `imagesdir` changed after the header
}

type mcall struct{ Name, Kind, Value, Attrs string }

func (w *mwalk) get(n string) (string, bool) {
	if w.unset[n] {
		return "", false
	}
	if v, ok := w.api[n]; ok {
		return v, true
	}
	v, ok := w.attrs[n]
	return v, ok
}

// image records an image, whose path is relative to `imagesdir`; references to attributes
// are replaced in its path and in its alternative text (if there is one)
func (w *mwalk) image(path, alt string) {
	if !w.active {
		return
	}
	path = strings.Join(strings.Fields(w.resolve(path)), " ")
	if dir, ok := w.get("imagesdir"); ok && dir != "" && !strings.HasPrefix(path, "/") && !strings.Contains(path, "://") {
		path = strings.TrimSuffix(dir, "/") + "/" + path
	}
	if alt != "" {
		alt = "\x01" + strings.Join(strings.Fields(w.resolve(alt)), " ")
	}
	w.imgs = append(w.imgs, path+alt)
}

// attribution is the rendition of the author and the title of a quote
func (w *mwalk) attribution(v string) string {
	return w.resolve(strings.NewReplacer("\"", "", ", ", " ").Replace(v))
}

// altSrc is the source for an alternative text
func altSrc(alt string) string {
	if alt == "" {
		return ""
	}
	return "\"" + alt + "\""
}

func (w *mwalk) exclude(s string) { w.excl = append(w.excl, strings.Fields(s)...) }

func (w *mwalk) emit(s string) {
	if w.active {
		w.out.WriteString(s)
	} else {
		w.excl = append(w.excl, strings.Fields(s)...)
	}
}

var mrefRx = regexp.MustCompile(`\{([a-z][a-z0-9_-]*)\}`)

func (w *mwalk) resolve(v string) string {
	return mrefRx.ReplaceAllStringFunc(v, func(m string) string {
		if x, ok := w.get(m[1 : len(m)-1]); ok {
			return x
		}
		return m
	})
}

func bump(v string) string {
	if n := 0; true {
		if _, err := fmt.Sscanf(v, "%d", &n); err == nil {
			return fmt.Sprint(n + 1)
		}
	}
	if len(v) == 1 {
		return string(rune(v[0] + 1))
	}
	return v
}

// inline returns the source of the text and its expected rendition
func (w *mwalk) inline(parts []MPart, verbatim bool) (string, string) {
	var src, txt strings.Builder
	for i, p := range parts {
		s, t := w.part(p)
		if i > 0 && p.K != "glue" {
			src.WriteString(" ")
			txt.WriteString(" ")
		}
		src.WriteString(s)
		txt.WriteString(t)
	}
	return src.String(), txt.String()
}

func (w *mwalk) part(p MPart) (string, string) {
	s, t := "", ""
	switch p.K {
	case "t", "glue":
		s, t = p.V, p.V
		if len(p.Sub) > 0 {
			ss, tt := w.inline(p.Sub, false)
			s, t = s+" "+ss, t+" "+tt
		}
	case "ref":
		s = "{" + p.N + "}"
		t = s
		if v, ok := w.get(p.N); ok {
			t = v
		}
	case "esc":
		return "\\{" + p.N + "}", "{" + p.N + "}"
	case "lit":
		return "+{" + p.N + "}+", "{" + p.N + "}"
	case "ctr", "ctr2":
		s = "{counter:" + p.N
		if p.K == "ctr2" {
			s = "{counter2:" + p.N
		}
		if p.V != "" {
			s += ":" + p.V
		}
		s += "}"
		if w.active {
			if v, ok := w.ctr[p.N]; ok {
				if p.V != "" {
					w.invalid = "start value of a counter in use"
				}
				if v == "z" || v == "Z" {
					w.invalid = "a counter beyond the last letter"
				}
				w.ctr[p.N] = bump(v)
			} else if p.V != "" {
				w.ctr[p.N] = p.V
			} else {
				w.ctr[p.N] = "1"
			}
			if p.K == "ctr" {
				t = w.ctr[p.N]
			}
		}
	case "fn":
		text, exp := p.V, w.resolve(p.V)
		if p.N == "" {
			s = p.W0() + "footnote:[" + text + "]"
			if w.active {
				w.notes = append(w.notes, exp)
				t = p.W0() + fmt.Sprintf("[%d]", len(w.notes))
			} else {
				w.excl = append(w.excl, strings.Fields(exp)...)
			}
			return s, t
		}
		if n, ok := w.named[p.N]; ok {
			return p.W0() + "footnote:" + p.N + "[]", p.W0() + fmt.Sprintf("[%d]", n)
		}
		s = p.W0() + "footnote:" + p.N + "[" + text + "]"
		if w.active {
			w.notes = append(w.notes, exp)
			w.named[p.N] = len(w.notes)
			t = p.W0() + fmt.Sprintf("[%d]", len(w.notes))
		} else {
			s = p.W0() + "footnote:[" + text + "]"
			w.excl = append(w.excl, strings.Fields(exp)...)
		}
		return s, t
	case "xref":
		if len(p.Sub) > 0 { // a label with references to attributes
			ls, lt := w.inline(p.Sub, false)
			return "<<" + p.N + "," + ls + ">>", lt
		}
		if p.V != "" {
			return "<<" + p.N + "," + p.V + ">>", p.V
		}
		t = "[" + p.N + "]"
		if v, ok := w.known[p.N]; ok {
			t = v
		}
		if l := w.knownImgs[p.N]; len(l) > 0 && w.active {
			w.imgs = append(w.imgs, l...)
			if w.dirMoved {
				w.invalid = "image in the label of a cross reference while imagesdir changes"
			}
		}
		return "<<" + p.N + ">>", t
	case "img":
		if p.W != "" && strings.ContainsAny(w.resolve(p.V), " \t") {
			return p.W, p.W
		}
		w.image(p.V, p.N)
		return "image:" + p.V + "[" + altSrc(p.N) + "]", ""
	case "lnk":
		to, text := w.resolve(p.V), w.resolve(p.N)
		if strings.ContainsAny(to, " \t") {
			return p.W, p.W
		}
		if text = strings.Join(strings.Fields(text), " "); text == "" {
			text = to
		}
		if w.active {
			w.imgs = append(w.imgs, to)
		}
		return "link:" + p.V + "[" + altSrc(p.N) + "]", text
	case "macro":
		s = p.N + ":" + p.V + "[]"
		if p.W != "" {
			s = p.N + ":" + p.V + "[suffix=" + p.W + "]"
		}
		m, ok := w.macros[p.N]
		if !ok {
			return s, s
		}
		attrs := ""
		if p.W != "" {
			attrs = "suffix=" + p.W
		}
		if w.active {
			w.calls = append(w.calls, mcall{p.N, "inline", p.V, attrs})
		}
		return s, macroText(m, p.V, p.W)
	}
	switch p.W {
	case "*", "_", "#", "**", "__", "~", "^":
		if strings.TrimSpace(t) == "" || strings.ContainsAny(t, "{}") {
			return s, t
		}
		return p.W + s + p.W, t
	case "`":
		if strings.TrimSpace(t) == "" || strings.ContainsAny(t, "{}") {
			return s, t
		}
		return "`" + s + "`", t
	case "role":
		if strings.TrimSpace(t) == "" || strings.ContainsAny(t, "{}") {
			return s, t
		}
		return "[.role1]#" + s + "#", t
	case "*_":
		if strings.TrimSpace(t) == "" || strings.ContainsAny(t, "{}") {
			return s, t
		}
		return "*_" + s + "_*", t
	case "url":
		if strings.TrimSpace(t) == "" || strings.ContainsAny(t, "{}") {
			return s, t
		}
		return "https://example.org/x[" + s + "]", t
	case "link":
		if strings.TrimSpace(t) == "" || strings.ContainsAny(t, "{}") {
			return s, t
		}
		return "link:other.adoc[" + s + "]", t
	case "+":
		return "+" + s + "+", t
	case "pass":
		return "pass:[" + s + "]", t
	case "dq":
		return "\"`" + s + "`\"", "\u201c" + t + "\u201d"
	case "anchor":
		return "[[a" + t + "]]" + s, t
	case "index":
		return "((" + s + "))", t
	case "br":
		return s + " +\nzz", t + " zz"
	case "image":
		return s + " image:" + p.V + ".png[]", t
	case "icon":
		return s + " icon:tags[]", t + " [tags]"
	case "hidden":
		return s + " (((" + p.V + "a, other)))", t
	case "auto":
		return "https://example.org/" + s, "https://example.org/" + t
	case "mail":
		return s + "@example.org", t + "@example.org"
	case "passq":
		return "pass:q[*" + s + "*]", t
	case "triple":
		return "+++<u>" + s + "</u>+++", t
	case "dollar":
		return "pass:c[*" + s + "*]", "*" + t + "*"
	case "escq":
		return "\\*" + s + "*", "*" + t + "*"
	case "copy":
		return s + "(C)", t + "\u00a9"
	case "special":
		return s + "<&>", t + "<&>"
	case "xreflink":
		if strings.TrimSpace(t) == "" || strings.ContainsAny(t, "{}") {
			return s, t
		}
		return "xref:other.adoc[" + s + "]", t
	case "roles":
		return "[.r1.r2]*" + s + "*", t
	case "sup":
		return s + "^" + p.V + "^", t + p.V
	}
	return s, t
}

// W0 is the text in front of a footnote
func (p MPart) W0() string { return p.W }

func macroText(m MacroSpec, value, suffix string) string {
	if m.Mode == "template" {
		return m.Name + "(" + value + ")" + suffix
	}
	return m.Name + ":" + value
}

// mb writes the source of a file
type mb struct {
	strings.Builder
	compact bool
}

func (w *mwalk) title(b *mb, t []MPart) string {
	if len(t) == 0 {
		return ""
	}
	n := len(w.imgs)
	s, x := w.inline(t, false)
	b.WriteString("." + s + "\n")
	if w.blockID != "" && w.active {
		if w.titleImgs == nil {
			w.titleImgs = map[string][]string{}
		}
		w.titleImgs[w.blockID] = w.imgs[n:len(w.imgs):len(w.imgs)]
		if x = strings.Join(strings.Fields(x), " "); x != "" {
			w.titles[w.blockID] = x
		}
		w.blockID = ""
	}
	return x
}

func (w *mwalk) caption(kind, title string) string {
	own := w.hasCap
	w.hasCap = false
	if title == "" {
		return ""
	}
	if own { // in place of the label and the number
		return w.ownCap + title
	}
	if !w.active {
		return title
	}
	label, ok := w.get(kind + "-caption")
	if !ok || label == "" {
		return title
	}
	w.cap[kind]++
	return fmt.Sprintf("%s %d. %s", label, w.cap[kind], title)
}

func slugOf(s string, prefix, sep string) string {
	s = strings.NewReplacer("{", "", "}", "", "-", " ", ".", " ").Replace(strings.ToLower(s))
	s = strings.Join(strings.Fields(s), sep)
	if strings.HasPrefix(s, prefix) {
		return s // (the prefix is not doubled)
	}
	return prefix + s
}

func (w *mwalk) cond(it MItem) (open, close string, holds bool) {
	switch it.C {
	case "ifdef", "ifndef":
		_, ok := w.get(it.N)
		holds = ok == (it.C == "ifdef")
		open, close = it.C+"::"+it.N+"[]", "endif::[]"
		if it.V != "" {
			close = "endif::" + it.N + "[]"
		}
	case "ifeval":
		v, ok := w.get(it.N)
		test := strings.TrimLeft(it.V, "RQN")
		flags := strings.TrimSuffix(it.V, test)
		sp := " "
		if strings.Contains(flags, "N") {
			sp = ""
		}
		if !ok || v == "" || strings.ContainsAny(v, "{}\" ") {
			// what is compared with an attribute which is not set is not specified; the grammar has words only
			open, close, holds = "ifdef::"+it.N+"[]", "endif::[]", ok
			return
		}
		if n, err := strconv.Atoi(v); err == nil && strconv.Itoa(n) == v && n >= 0 {
			// a number is compared with a number
			op, other := "==", n
			for _, o := range []string{"<=", ">=", "!=", "<", ">"} {
				if strings.HasPrefix(test, o) {
					op = o
					break
				}
			}
			switch {
			case strings.HasSuffix(test, "+"):
				other++
			case strings.HasSuffix(test, "-") && n > 0:
				other--
			}
			switch op {
			case "==":
				holds = n == other
			case "!=":
				holds = n != other
			case "<":
				holds = n < other
			case "<=":
				holds = n <= other
			case ">":
				holds = n > other
			case ">=":
				holds = n >= other
			}
			q := ""
			if strings.Contains(flags, "Q") {
				// (the string is converted if the other operand is a number, and it is compared as a string with a string)
				q = "'"
			}
			l, rt := fmt.Sprintf("%s{%s}%s", q, it.N, q), strconv.Itoa(other)
			if strings.Contains(flags, "R") {
				l, rt, op = rt, l, mirrored(op)
			}
			open, close = fmt.Sprintf("ifeval::[%s%s%s%s%s]", l, sp, op, sp, rt), "endif::[]"
			return
		}
		op := "=="
		for _, o := range []string{"<=", ">=", "!", "<", ">"} {
			if strings.HasPrefix(test, o) {
				op = map[string]string{"!": "!="}[o]
				if op == "" {
					op = o
				}
				break
			}
		}
		value := v
		for _, c := range v {
			if !unicode.IsLetter(c) && !unicode.IsDigit(c) && !strings.ContainsRune(",?!;_-", c) {
				value = "othervalue" // (the grammar has words of these characters only)
			}
		}
		switch {
		case strings.HasSuffix(test, "other"):
			value = "othervalue"
		case strings.HasSuffix(test, "+"):
			value += "a"
		case strings.HasSuffix(test, "-"):
			value = string([]rune(value)[:1])
		}
		if _, err := strconv.ParseFloat(value, 64); err == nil {
			value = "othervalue"
		}
		switch op {
		case "==":
			holds = v == value
		case "!=":
			holds = v != value
		case "<":
			holds = v < value
		case "<=":
			holds = v <= value
		case ">":
			holds = v > value
		case ">=":
			holds = v >= value
		}
		q := "\""
		if strings.Contains(flags, "Q") {
			q = "'"
		}
		l, rt := q+"{"+it.N+"}"+q, q+value+q
		if strings.Contains(flags, "R") {
			l, rt, op = rt, l, mirrored(op)
		}
		open, close = fmt.Sprintf("ifeval::[%s%s%s%s%s]", l, sp, op, sp, rt), "endif::[]"
	}
	return
}

// absOffset is the level to which the first section of an included file comes; the others keep
// their distance to it
type absOffset struct {
	pending      bool
	level, delta int
}

// shift gives the difference between the levels in the source and in the document
func (w *mwalk) shift() int {
	if w.abs != nil {
		return w.offset + w.abs.delta
	}
	return w.offset
}

// mirrored gives the operator for the operands in the other order
func mirrored(op string) string {
	switch op[0] {
	case '<':
		return ">" + op[1:]
	case '>':
		return "<" + op[1:]
	}
	return op
}

func (w *mwalk) items(b *mb, items []MItem, depth int) {
	for i := range items {
		w.item(b, &items[i], depth)
	}
}

func (w *mwalk) item(b *mb, it *MItem, depth int) {
	nl := "\n"
	w.blockID = ""
	if it.A != "" {
		b.WriteString("[" + it.A + "]\n")
		w.blockID = strings.Trim(strings.TrimPrefix(it.A, "id="), "#[]")
	}
	if it.Cap != "" {
		b.WriteString("[caption=\"" + it.Cap + "\"]\n")
		w.ownCap, w.hasCap = w.resolve(it.Cap), true
	}
	switch it.K {
	case "decl":
		sep := " "
		if it.V == "" {
			sep = ""
		}
		b.WriteString(":" + it.N + ":" + sep + it.V + "\n")
		if !w.inHead {
			b.WriteString(nl)
		}
		if w.active {
			w.attrs[it.N] = w.resolve(it.V)
			w.dirMoved = w.dirMoved || it.N == "imagesdir" && !w.inHead
		}
	case "reset":
		if it.V == "!" {
			b.WriteString(":!" + it.N + ":\n")
		} else {
			b.WriteString(":" + it.N + "!:\n")
		}
		if !w.inHead {
			b.WriteString(nl)
		}
		if w.active {
			delete(w.attrs, it.N)
			w.dirMoved = w.dirMoved || it.N == "imagesdir" && !w.inHead
		}
	case "cond":
		open, close, holds := w.cond(*it)
		b.WriteString(open + "\n")
		was := w.active
		w.active = was && holds
		if len(it.Items) > 0 && it.L == 1 {
			b.WriteString("\n")
		}
		w.items(b, it.Items, depth)
		w.active = was
		b.WriteString(close + "\n")
		if it.L != 2 {
			b.WriteString(nl)
		}
	case "condline":
		_, _, holds := w.cond(*it)
		was := w.active
		w.active = was && holds
		if len(it.Items) > 0 { // a declaration, or a section
			inner := &mb{}
			head := w.inHead
			w.inHead = true
			w.item(inner, &it.Items[0], depth)
			w.inHead = head
			w.dirMoved = w.dirMoved || w.active && it.Items[0].N == "imagesdir" && !head
			w.active = was
			b.WriteString(it.C + "::" + it.N + "[" + strings.TrimSpace(inner.String()) + "]\n")
			if !head {
				b.WriteString(nl)
			}
			return
		}
		if len(it.P) == 0 { // (minimised)
			w.active = was
			return
		}
		s, x := w.inline(it.P[0], false)
		w.emit(" " + x + " ")
		w.active = was
		b.WriteString(it.C + "::" + it.N + "[" + s + "]\n" + nl)
	case "para":
		x := w.title(b, it.T)
		w.emit(" " + x + " ")
		if it.N != "" {
			b.WriteString("[#" + it.N + "]\n")
		}
		switch it.C {
		case "NOTE", "TIP", "WARNING", "IMPORTANT", "CAUTION":
			b.WriteString(it.C + ": ")
		case "lead":
			b.WriteString("[.lead]\n")
		case "literal":
			b.WriteString(" ")
		case "quotepara":
			b.WriteString("[quote, " + it.V + "]\n")
		case "mdquote":
			b.WriteString("> ")
		case "versepara":
			b.WriteString("[verse]\n")
		case "sidebarpara":
			b.WriteString("[sidebar]\n")
		case "passpara":
			b.WriteString("[pass]\n")
		case "listingpara":
			b.WriteString("[listing]\n")
		case "sourcepara":
			b.WriteString("[source,go]\n")
		}
		switch it.C {
		case "NOTE", "TIP", "WARNING", "IMPORTANT", "CAUTION":
			label := it.C[:1] + strings.ToLower(it.C[1:])
			if x != "" && w.active {
				// the label comes first
				o := w.out.String()
				w.out.Reset()
				w.out.WriteString(o[:len(o)-len(x)-2] + " " + label + " " + x + " ")
			} else {
				w.emit(label + " ")
			}
		}
		empty := true
		for k, l := range it.P {
			s, t := w.inline(l, false)
			empty = empty && strings.TrimSpace(t) == ""
			if k > 0 && it.C == "mdquote" {
				b.WriteString("> ")
			}
			if k > 0 && it.C == "literal" {
				b.WriteString(" ")
			}
			b.WriteString(s + "\n")
			w.emit(t + " ")
			if k < len(it.Items) { // a comment between the lines
				b.WriteString("// " + rawText(it.Items[k].P[0]) + "\n")
				w.exclude(rawText(it.Items[k].P[0]))
			}
		}
		if empty && w.active && (it.C != "" || it.N != "" || x != "") {
			w.invalid = "paragraph without content" // (its label and its title are not shown)
		}
		if it.C == "quotepara" {
			w.emit("\u2014 " + w.attribution(it.V) + " ")
		}
		b.WriteString(nl)
	case "sec":
		pending := w.abs != nil && w.abs.pending
		if pending {
			w.abs.delta = 0
		}
		l := it.L + w.shift()
		if l < 1 {
			l = 1
		}
		if l > 5 {
			l = 5
		}
		_, nums := w.get("sectnums")
		// below an unnumbered section no number is specified
		if len(w.numOn) == 0 {
			l = 1
		}
		if l > len(w.numOn)+1 {
			l = len(w.numOn) + 1
		}
		if nums {
			for k := 0; k < l-1; k++ {
				if !w.numOn[k] {
					l = 1
				}
			}
		}
		if pending && w.active {
			// the first section comes to the level of the offset, whatever its own level is
			w.abs.pending = false
			w.abs.level = l - w.offset
			w.abs.delta = w.abs.level - (1 + len(w.numOn)*2%3)
			if w.abs.level < 0 {
				w.invalid = "level"
			}
		}
		if l-w.shift() < 1 {
			l = 1 + w.shift() // as high as the included file can say
			if l > len(w.numOn)+1 {
				w.invalid = "level"
			}
			if nums {
				for k := 0; k < l-1 && k < len(w.numOn); k++ {
					if !w.numOn[k] {
						w.invalid = "number"
					}
				}
			}
		}
		if it.N != "" {
			b.WriteString("[#" + it.N + "]\n")
		}
		s, t := w.inline(it.T, false)
		b.WriteString(strings.Repeat("=", l-w.shift()+1) + " " + s + "\n" + nl)
		if !w.active {
			w.emit(t)
			return
		}
		id := strings.ToLower(it.N) // (ids of sections are shown in lower case)
		if id == "" {
			prefix, ok := w.get("idprefix")
			if !ok {
				prefix = "_"
			}
			sep, ok := w.get("idseparator")
			if !ok {
				sep = "_"
			}
			base := slugOf(t, prefix, sep)
			if base == "" {
				base = "_" // (an id is never empty)
			}
			id = base
			for n := 2; w.slugs[id] > 0; n++ {
				id = fmt.Sprintf("%s_%d", base, n)
			}
		}
		w.slugs[id]++
		w.numOn = append(w.numOn[:min(l-1, len(w.numOn))], nums)
		text := t
		if nums {
			w.num[l]++
			for k := l + 1; k < len(w.num); k++ {
				w.num[k] = 0
			}
			var n []string
			for k := 1; k <= l; k++ {
				n = append(n, fmt.Sprint(w.num[k]))
			}
			text = strings.Join(n, ".") + ". " + t
		}
		if it.N != "" {
			w.titles[it.N] = strings.Join(strings.Fields(t), " ")
		}
		w.heads = append(w.heads, mhead{l + 1, id, strings.Join(strings.Fields(text), " ")})
		w.emit(" " + text + " ")
	case "fig":
		w.image(it.C, it.V) // (shown above the title)
		x := w.caption("figure", w.title(b, it.T))
		b.WriteString("image::" + it.C + "[" + altSrc(it.V) + "]\n" + nl)
		w.emit(" " + x + " ")
	case "table":
		x := w.caption("table", w.title(b, it.T))
		w.emit(" " + x + " ")
		cols := it.L
		if cols < 1 {
			cols = 1
		}
		switch it.C {
		case "header":
			fmt.Fprintf(b, "[%%header,cols=%d*]\n", cols)
		case "footer":
			fmt.Fprintf(b, "[%%header%%footer,cols=%d*]\n", cols)
		case "cols":
			fmt.Fprintf(b, "[cols=\"%s\"]\n", strings.TrimSuffix(strings.Repeat("1,", cols), ","))
		case "plain", "implicit":
		default:
			fmt.Fprintf(b, "[cols=\"%s\"]\n", strings.TrimSuffix(strings.Repeat("<.^2,", cols), ","))
		}
		b.WriteString("|===\n")
		n := len(it.P)
		for k := 0; k < n; k++ {
			if l := it.cellList(k); l != nil {
				b.WriteString("a|")
				for _, line := range l.P {
					s, t := w.inline(line, false)
					b.WriteString(l.C + " " + s + "\n")
					w.emit(" " + t + " ")
				}
				continue
			}
			s, t := w.inline(it.P[k], false)
			b.WriteString("|" + s)
			w.emit(" " + t + " ")
			if (k+1)%cols == 0 || it.V == "lines" || k == n-1 {
				b.WriteString("\n")
			} else {
				b.WriteString(" ")
			}
			if it.C == "implicit" && k == cols-1 {
				b.WriteString("\n")
			}
		}
		b.WriteString("|===\n" + nl)
	case "blk":
		var lab, x string
		if it.C == "example" {
			x = w.caption("example", w.title(b, it.T))
		} else {
			x = w.title(b, it.T)
		}
		d := ""
		post := ""
		switch it.C {
		case "example":
			d = "====" + strings.Repeat("=", depth)
		case "sidebar":
			d = "****" + strings.Repeat("*", depth)
		case "quote":
			d = "____" + strings.Repeat("_", depth)
			if it.V != "" {
				b.WriteString("[quote, " + it.V + "]\n")
				post = "\u2014 " + w.attribution(it.V)
			}
		case "open":
			d = "--"
		default:
			d = "====" + strings.Repeat("=", depth)
			b.WriteString("[" + it.C + "]\n")
			lab = it.C[:1] + strings.ToLower(it.C[1:])
		}
		w.emit(" " + lab + " " + x + " ")
		b.WriteString(d + "\n")
		inner := &mb{}
		w.items(inner, it.Items, depth+1)
		b.WriteString(strings.TrimRight(inner.String(), "\n"))
		b.WriteString("\n" + d + "\n" + nl)
		w.emit(" " + post + " ")
	case "verb":
		x := w.title(b, it.T)
		w.emit(" " + x + " ")
		d, pre := "----", ""
		switch it.C {
		case "listing":
		case "attrs":
			pre = "[subs=\"attributes\"]\n"
		case "source":
			pre = "[source,ruby]\n"
		case "literal":
			d = "...."
		case "fenced":
			d = "```"
		case "verse":
			d = "____" + strings.Repeat("_", depth+2)
			pre = "[verse]\n"
		case "pass":
			d = "++++"
		}
		b.WriteString(pre + d + "\n")
		if it.N != "" {
			w.rawInclude(b, it)
		}
		for i, l := range it.P {
			var s, t string
			if it.C == "attrs" || it.C == "verse" {
				s, t = w.inline(l, false)
			} else {
				s = rawText(l)
				t = s
				if i < len(it.Items) { // callouts
					s += fmt.Sprintf(" <%d>", i+1)
					t += fmt.Sprintf(" (%d)", i+1)
				}
			}
			b.WriteString(s + "\n")
			w.emit(t + " ")
		}
		b.WriteString(d + "\n")
		for i := range it.Items {
			s, t := w.inline(it.Items[i].P[0], false)
			b.WriteString(fmt.Sprintf("<%d> %s\n", i+1, s))
			w.emit(t + " ")
		}
		b.WriteString(nl)
	case "comment":
		var l []string
		for _, p := range it.P {
			l = append(l, rawText(p))
		}
		was := w.active
		w.active = false
		w.emit(strings.Join(l, " "))
		w.active = was
		if it.C == "block" {
			b.WriteString("////\n" + strings.Join(l, "\n") + "\n////\n" + nl)
		} else {
			b.WriteString("// " + strings.Join(l, "\n// ") + "\n" + nl)
		}
	case "break":
		b.WriteString(it.C + "\n" + nl)
	case "list":
		x := w.title(b, it.T)
		w.emit(" " + x + " ")
		if it.V != "" {
			b.WriteString("[" + it.V + "]\n")
		}
		w.list(b, it, 1, depth)
		b.WriteString(nl)
	case "incl":
		w.include(b, it, depth)
	case "bmacro":
		s := it.N + "::" + it.V + "[]"
		attrs := ""
		if it.C != "" {
			s = it.N + "::" + it.V + "[suffix=" + it.C + "]"
			attrs = "suffix=" + it.C
		}
		b.WriteString(s + "\n" + nl)
		if m, ok := w.macros[it.N]; ok {
			if w.active {
				w.calls = append(w.calls, mcall{it.N, "block", it.V, attrs})
			}
			w.emit(" " + macroText(m, it.V, it.C) + " ")
		} else {
			w.emit(" " + s + " ")
		}
	}
}

func rawText(l []MPart) string {
	var p []string
	for _, x := range l {
		switch x.K {
		case "ref", "esc", "lit":
			p = append(p, "{"+x.N+"}")
		case "ctr", "ctr2":
			p = append(p, "{counter:"+x.N+"}")
		default:
			p = append(p, x.V)
		}
	}
	return strings.Join(p, " ")
}

// list writes a list: every entry has a text, attached blocks and a nested list
func (w *mwalk) list(b *mb, it *MItem, lvl, depth int) {
	for k := range it.Items {
		e := &it.Items[k]
		var s, t string
		if len(e.P) > 0 {
			s, t = w.inline(e.P[0], false)
		}
		switch it.C { // (the words of a term have no values)
		case "ul":
			b.WriteString(strings.Repeat("*", lvl) + " " + s + "\n")
		case "dash":
			b.WriteString("- " + s + "\n")
		case "check":
			mark := "x"
			sym := "\u2713"
			if k%2 == 1 {
				mark, sym = " ", "\u274f"
			}
			b.WriteString("* [" + mark + "] " + s + "\n")
			t = sym + " " + t
		case "ol":
			b.WriteString(strings.Repeat(".", lvl) + " " + s + "\n")
		case "num":
			fmt.Fprintf(b, "%d. %s\n", k+1, s)
		case "dl":
			term, tt := w.inline(e.T, false)
			b.WriteString(term + strings.Repeat(":", lvl+1) + " " + s + "\n")
			t = tt + " " + t
			for _, p := range e.T { // the term comes first: the parts have to be evaluated in order
				if p.K != "t" && p.K != "ref" && p.K != "xref" && len(e.P) > 0 {
					w.invalid = "order within a labeled list"
				}
			}
		}
		w.emit(" " + t + " ")
		for j := 1; j < len(e.P); j++ { // further lines
			s, t := w.inline(e.P[j], false)
			b.WriteString(s + "\n")
			w.emit(t + " ")
		}
		for j := range e.Items {
			c := &e.Items[j]
			if c.K == "list" {
				w.list(b, c, lvl+1, depth)
				continue
			}
			inner := &mb{}
			w.item(inner, c, depth+1)
			b.WriteString("+\n" + strings.TrimRight(inner.String(), "\n") + "\n")
			if c.L2 == 1 {
				// a line which follows the block is a paragraph of its own
				s, t := w.inline(c.Tail, false)
				b.WriteString(s + "\n")
				w.emit(" " + t + " ")
			}
		}
		if e.L == 1 {
			b.WriteString("\n")
		}
		if e.N != "" {
			b.WriteString("// " + e.N + "\n")
			w.exclude(e.N)
		}
	}
}

// rawInclude writes a file which is not a document, and the directive which includes parts of it
func (w *mwalk) rawInclude(b *mb, it *MItem) {
	w.nfile++
	name := fmt.Sprintf("raw%d.%s", w.nfile, it.N)
	var f strings.Builder
	n := len(it.Raw)
	sel := make([]bool, n)
	attrs := ""
	switch it.RawSel {
	case "": // everything
		for i := range sel {
			sel[i] = true
		}
		for _, l := range it.Raw {
			f.WriteString(l + "\n")
		}
	case "lines":
		for i, l := range it.Raw {
			f.WriteString(l + "\n")
			sel[i] = i == 0 || i >= 2 && i <= 3
		}
		attrs = "lines=1;3..4"
	case "lines-":
		for i, l := range it.Raw {
			f.WriteString(l + "\n")
			sel[i] = i >= 1
		}
		attrs = "lines=2..-1"
	case "tags", "nested", "not", "all":
		// [a] 0 1 [b] 2 [/b] 3 [/a] 4 [c] 5... [/c]
		for i, l := range it.Raw {
			switch i {
			case 0:
				f.WriteString("# tag::a[]\n")
			case 2:
				f.WriteString("# tag::b[]\n")
			case 5:
				f.WriteString("# tag::c[]\n")
			}
			f.WriteString(l + "\n")
			switch i {
			case 2:
				f.WriteString("# end::b[]\n")
			case 3:
				f.WriteString("# end::a[]\n")
			case n - 1:
				if n > 5 {
					f.WriteString("# end::c[]\n")
				}
			}
			switch it.RawSel {
			case "tags":
				sel[i] = i == 2 || i >= 5
			case "nested":
				sel[i] = i <= 3
			case "not":
				sel[i] = i <= 3 && i != 2
			case "all":
				sel[i] = true
			}
		}
		attrs = map[string]string{"tags": "tags=b;c", "nested": "tag=a", "not": "tags=a;!b", "all": "tags=**"}[it.RawSel]
	}
	if p := strings.TrimPrefix(it.RawSel, "lines@"); p != it.RawSel {
		// ranges in any order, which may overlap; those outside of the file select nothing
		for _, r := range strings.FieldsFunc(p, func(c rune) bool { return c == ',' || c == ';' }) {
			from, to, multi := strings.Cut(r, "..")
			lo, _ := strconv.Atoi(from)
			hi, _ := strconv.Atoi(to)
			if !multi {
				hi = lo
			}
			for i := range sel {
				sel[i] = sel[i] || i+1 >= lo && (i+1 <= hi || hi == -1)
			}
		}
		for _, l := range it.Raw {
			f.WriteString(l + "\n")
		}
		attrs = "lines=" + p
		if strings.Contains(p, ",") {
			attrs = "lines=\"" + p + "\""
		}
	}
	if p := strings.TrimPrefix(it.RawSel, "again"); p != it.RawSel {
		// [a] 0 1 [b] 2 [/b] 3 [/a] 4 [c] 5 [/c] [b] 6... [/b]
		tags := map[int]string{0: "# tag::a[]\n", 2: "# tag::b[]\n", 3: "# end::b[]\n", 4: "# end::a[]\n", 5: "# tag::c[]\n", 6: "# end::c[]\n# tag::b[]\n", n: "# end::b[]\n"}
		for i := 0; i <= n; i++ {
			f.WriteString(tags[i])
			if i == n {
				break
			}
			f.WriteString(it.Raw[i] + "\n")
			a, b, c := i <= 3, i == 2 || i >= 6, i == 5
			switch p {
			case "-b":
				attrs, sel[i] = "tag=b", b
			case "-star":
				attrs, sel[i] = "tags=*", a || b || c
			case "-starnot":
				attrs, sel[i] = "tags=*;!b", (a || c) && !b
			case "-allnot":
				attrs, sel[i] = "tags=**;!b", !b
			case "-ab":
				attrs, sel[i] = "tags=a;b", a || b
			case "-quoted":
				attrs, sel[i] = "tags=\"a,c\"", a || c
			case "-anot":
				attrs, sel[i] = "tags=a;!b", a && !b
			}
		}
		if n < 7 {
			w.invalid = "too few lines for the tags"
		}
	}
	for i, l := range it.Raw {
		if sel[i] {
			w.emit(" " + l + " ")
		} else {
			w.exclude(l)
		}
	}
	w.files = append(w.files, File{Path: w.root + "/" + name, Data: Text(f.String()), Mtime: 1600000000 * 1e9})
	b.WriteString("include::" + name + "[" + attrs + "]\n")
}

func (w *mwalk) include(b *mb, it *MItem, depth int) {
	w.nfile++
	name := fmt.Sprintf("inc%d.adoc", w.nfile)
	dir := ""
	if it.N != "" {
		dir = it.N + "/"
	}
	inner := &mb{}
	attrs := ""
	offset, abs := w.offset, w.abs
	root := w.root
	w.root = w.root + "/" + strings.TrimSuffix(dir, "/")
	w.root = strings.TrimSuffix(w.root, "/")
	switch it.C {
	case "offset":
		w.offset += it.L
		attrs = fmt.Sprintf("leveloffset=+%d", it.L)
		w.items(inner, it.Items, depth)
	case "absoffset":
		w.offset, w.abs = 0, &absOffset{pending: true, level: it.L}
		w.items(inner, it.Items, depth)
		attrs = fmt.Sprintf("leveloffset=%d", w.abs.level)
	case "lines":
		// the first items are not selected
		n := it.L
		if n > len(it.Items) {
			n = len(it.Items)
		}
		was := w.active
		w.active = false
		w.items(inner, it.Items[:n], depth)
		from := strings.Count(inner.String(), "\n") + 1
		w.active = was
		m := len(it.Items) - n
		if m > 1 {
			m--
		}
		w.items(inner, it.Items[n:n+m], depth)
		to := strings.Count(inner.String(), "\n")
		w.active = false
		w.items(inner, it.Items[n+m:], depth)
		w.active = was
		attrs = fmt.Sprintf("lines=%d..%d", from, to)
		if to < from {
			attrs = "lines=1"
			w.invalid = "no lines"
		}
	case "tag":
		n := it.L
		if n > len(it.Items) {
			n = len(it.Items)
		}
		was := w.active
		w.active = false
		w.items(inner, it.Items[:n], depth)
		w.active = was
		inner.WriteString("// tag::part[]\n")
		w.items(inner, it.Items[n:], depth)
		inner.WriteString("// end::part[]\n")
		w.active = false
		if it.V != "" {
			inner.WriteString("\n" + it.V + "\n")
			w.emit(it.V)
		}
		w.active = was
		attrs = "tag=part"
	default:
		w.items(inner, it.Items, depth)
	}
	w.root = root
	w.offset, w.abs = offset, abs
	w.files = append(w.files, File{Path: w.root + "/" + dir + name, Data: Text(inner.String()), Mtime: 1600000000 * 1e9})
	b.WriteString("include::" + dir + name + "[" + attrs + "]\n\n")
}

// mexpect is what a document has to give
type mexpect struct {
	known    map[string]string // ids which can be referred to
	src      string
	files    []File
	words    string
	heads    []mhead
	calls    []mcall
	excl     []string
	notes    int
	imgs     []string
	tocTitle string
	toc      string // the value of `toc` and the number of levels, if there is one
	levels   int
	invalid  string
}

// evalDoc computes the source of a document and what it has to give
func evalDoc(d *MDoc, cfg Cfg) mexpect {
	known := map[string]string{}
	var knownImgs map[string][]string
	moved := false
	var e mexpect
	for pass := 0; pass < 2; pass++ {
		w := &mwalk{api: map[string]string{}, unset: map[string]bool{}, attrs: map[string]string{"figure-caption": "Figure", "table-caption": "Table", "example-caption": "Example"}, ctr: map[string]string{}, cap: map[string]int{}, named: map[string]int{}, titles: map[string]string{}, known: known, knownImgs: knownImgs, dirMoved: moved, slugs: map[string]int{}, active: true, root: d.Root, macros: map[string]MacroSpec{}}
		for _, a := range cfg.Attrs {
			if a.V == nil {
				w.unset[a.K] = true
				continue
			}
			s, _ := a.V.(string)
			w.api[a.K] = s
		}
		for _, m := range cfg.Macros {
			w.macros[m.Name] = m
		}
		b := &mb{}
		if len(d.Title) > 0 {
			s, _ := w.inline(d.Title, false)
			b.WriteString("= " + s + "\n")
			if d.Author != "" {
				names := strings.Split(d.Author, "; ")
				for k, name := range names {
					sfx := ""
					if k > 0 {
						b.WriteString("; ")
						sfx = fmt.Sprintf("_%d", k+1)
					}
					b.WriteString(fmt.Sprintf("%s <a%d@example.org>", name, k))
					f := strings.Fields(name)
					w.attrs["author"+sfx] = name
					w.attrs["firstname"+sfx], w.attrs["lastname"+sfx] = f[0], f[len(f)-1]
					ini := ""
					for _, x := range f {
						ini += string([]rune(x)[:1])
					}
					w.attrs["authorinitials"+sfx] = ini
				}
				w.attrs["authors"] = strings.Join(names, ", ")
				b.WriteString("\n")
				if d.Rev != "" {
					b.WriteString("v" + d.Rev + "\n")
					w.attrs["revnumber"] = d.Rev
				}
			}
		}
		w.inHead = true
		w.items(b, d.Header, 0)
		w.inHead = false
		toc, hasToc := w.get("toc")
		levels := 2
		if v, ok := w.get("toclevels"); ok {
			fmt.Sscan(v, &levels)
		}
		tocTitle, ok := w.get("toc-title")
		if !ok {
			tocTitle = "Table of Contents"
		}
		if !hasToc || len(d.Title) == 0 {
			toc = "none"
		}
		if b.Len() > 0 {
			b.WriteString("\n")
		}
		w.items(b, d.Items, 0)
		for i, n := range w.notes {
			w.emit(fmt.Sprintf(" %d. %s ", i+1, n))
		}
		known, knownImgs, moved = w.titles, w.titleImgs, w.dirMoved
		e = mexpect{known: w.titles, src: b.String(), files: w.files, words: strings.Join(strings.Fields(w.out.String()), " "), heads: w.heads, calls: w.calls, excl: w.excl, notes: len(w.notes), imgs: w.imgs, toc: toc, tocTitle: tocTitle, levels: levels, invalid: w.invalid}
	}
	return e
}

var (
	tagRx      = regexp.MustCompile(`<(/?)([a-zA-Z][a-zA-Z0-9]*)[^>]*>`)
	headRx     = regexp.MustCompile(`(?s)<h([2-6]) id="([^"]*)"[^>]*>(.*?)</h[2-6]>`)
	tocRx      = regexp.MustCompile(`(?s)<div id="toc" class="toc">.*?</div>\n*</div>|<div id="toc".*?\n</div>`)
	tocTitleRx = regexp.MustCompile(`(?s)<div id="toctitle">(.*?)</div>`)
	tocLnkRx   = regexp.MustCompile(`<a href="#([^"]*)">(.*?)</a>`)
)

var inlineTags = map[string]bool{"a": true, "strong": true, "em": true, "code": true, "mark": true, "sup": true, "sub": true, "span": true, "b": true, "i": true, "u": true}

// plain returns the words of a piece of output
func plain(s string) string {
	s = tagRx.ReplaceAllStringFunc(s, func(m string) string {
		x := tagRx.FindStringSubmatch(m)
		if inlineTags[strings.ToLower(x[2])] {
			return ""
		}
		return " "
	})
	s = html.UnescapeString(s)
	s = strings.ReplaceAll(s, "\u200b", "")
	s = strings.ReplaceAll(s, "\u00a0", " ")
	return strings.Join(strings.Fields(s), " ")
}

// bodyOf returns the part of the output which stems from the body of the document, and its table of contents
func bodyOf(out string, hf bool) (body, toc string) {
	body = out
	if hf {
		if i := strings.Index(body, "<div id=\"content\">"); i >= 0 {
			if j := strings.Index(body, "<div id=\"toc\""); j >= 0 && j < i {
				toc = body[j:i]
			}
			body = body[i:]
		}
		if i := strings.LastIndex(body, "<div id=\"footer\">"); i >= 0 {
			body = body[:i]
		} else if i := strings.LastIndex(body, "</body>"); i >= 0 {
			body = body[:i]
		}
	}
	if i := strings.Index(body, "<div id=\"toc\""); i >= 0 {
		rest := body[i:]
		j := strings.Index(rest, "</div>")
		if j >= 0 {
			if k := strings.Index(rest[j+6:], "</div>"); k >= 0 {
				j += 6 + k
			}
			toc = rest[:j]
			body = body[:i] + rest[j+6:]
		}
	}
	return
}

func headsOf(body string) []mhead {
	var h []mhead
	for _, m := range headRx.FindAllStringSubmatch(body, -1) {
		h = append(h, mhead{int(m[1][0] - '0'), m[2], plain(m[3])})
	}
	return h
}

func errorLogged(r *OpResult) bool {
	for _, l := range r.Logs {
		if strings.Contains(l, `"level":"error"`) || strings.Contains(l, `"level":"fatal"`) {
			return true
		}
	}
	return false
}

func wordDiff(got, want string) string {
	g, w := strings.Fields(got), strings.Fields(want)
	i := 0
	for i < len(g) && i < len(w) && g[i] == w[i] {
		i++
	}
	ctx := func(x []string) string {
		a, b := i-5, i+12
		if a < 0 {
			a = 0
		}
		if b > len(x) {
			b = len(x)
		}
		if a > len(x) {
			a = len(x)
		}
		return strings.Join(x[a:b], " ")
	}
	return fmt.Sprintf("at word %d (of %d, expected %d): got %q, expected %q", i, len(g), len(w), ctx(g), ctx(w))
}

func sortedKeys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
