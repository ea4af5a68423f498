//go:build go1.21

package main

import (
	"fmt"
	"strconv"
	"strings"
)

// mgen draws documents for the reference model
type mgen struct {
	r        *Rng
	n        int
	profile  string // C02, C03, C20
	pre      string
	ids      []string
	depth    int
	nonote   int
	incl     int
	again    []MItem // blocks which may occur again
	large    bool    // some blocks have many elements
	level    int
	simple   int // nothing which depends on the order of evaluation
	macros   []string
	attached int
	declared []string // names of the attributes declared so far (C03)
	started  []string // the counters which began with a value of their own
	images   int      // how frequent images within text are
	idtheme  bool     // many declarations which matter for the ids of sections
	anchors  int
	blocks   []string // the ids of the blocks with a title
	theme    int      // this kind of block is frequent (-1: none)
}

var mattrs = []string{"alpha", "beta", "gamma", "my-attr", "x2y", "delta2"}

func (g *mgen) tok() string {
	g.n++
	return fmt.Sprintf("zq%s%04dz", g.pre, g.n)
}

func (g *mgen) toks(a, b int) string {
	n := g.r.R(a, b)
	p := make([]string, n)
	for i := range p {
		p[i] = g.tok()
	}
	return strings.Join(p, " ")
}

func (g *mgen) attr() string { return mattrs[g.r.N(len(mattrs))] }

func (g *mgen) part() MPart {
	r := g.r
	switch g.profile {
	case "C20":
		switch {
		case g.simple == 0 && r.P(25):
			return g.macroPart()
		case r.P(25):
			p := MPart{K: "t", V: g.tok(), W: r.Pick("*", "_", "`", "role")}
			if r.P(25) && g.simple == 0 {
				p.Sub = []MPart{g.macroPart()}
				p.W = r.Pick("*", "_", "`", "role", "roles", "dq", "*_")
			}
			return p
		case g.simple == 0 && g.nonote == 0 && r.P(8):
			return g.note()
		case len(g.blocks) > 0 && r.P(14):
			return MPart{K: "xref", N: g.blocks[r.N(len(g.blocks))]}
		}
		return MPart{K: "t", V: g.tok()}
	case "C03":
		switch r.W(30, 34, 12, 6, 8, 8, 2, 2, g.images, 2) {
		case 0:
			return MPart{K: "t", V: g.tok()}
		case 1:
			p := MPart{K: "ref", N: g.attr()}
			if r.P(20) {
				p.W = r.Pick("*", "_", "`", "role", "*_", "url", "link", "dq", "xreflink")
			}
			if r.P(4) {
				p.N = r.Pick("author", "firstname", "lastname", "revnumber", "authors", "authorinitials")
			}
			return p
		case 2:
			if g.simple > 0 {
				break
			}
			return MPart{K: "ctr", N: r.Pick("ca", "cb", "cc")}
		case 3:
			if g.simple > 0 {
				break
			}
			if r.P(30) {
				g.n++
				n := fmt.Sprintf("cs%d", g.n)
				g.started = append(g.started, n)
				return MPart{K: r.Pick("ctr", "ctr", "ctr2"), N: n, V: r.Pick("5", "10", "a", "t", "B", "0", "99")}
			}
			if len(g.started) > 0 && r.P(60) {
				return MPart{K: r.Pick("ctr", "ctr", "ctr2"), N: g.started[r.N(len(g.started))]}
			}
			return MPart{K: "ctr2", N: r.Pick("ca", "cb", "cc")}
		case 4:
			if g.nonote > 0 || g.simple > 0 {
				break
			}
			if r.P(15) {
				return MPart{K: "t", V: g.tok(), W: r.Pick("*", "_", "role", "roles", "dq", "*_", "#"), Sub: []MPart{g.note()}}
			}
			return g.note()
		case 5:
			if r.P(25) {
				l := []MPart{{K: "t", V: g.tok()}, {K: "ref", N: g.attr()}} // (text in between has to begin with a letter)
				return MPart{K: "xref", N: "nowhere", Sub: l}
			}
			if len(g.blocks) > 0 && r.P(50) {
				return MPart{K: "xref", N: g.blocks[r.N(len(g.blocks))]}
			}
			if len(g.ids) > 0 && r.P(50) {
				return MPart{K: "xref", N: g.ids[r.N(len(g.ids))]}
			}
			return MPart{K: "xref", N: g.id("sec", r.N(8))}
		case 6:
			return MPart{K: "esc", N: g.attr()}
		case 7:
			return MPart{K: "lit", N: g.attr()}
		case 8:
			return g.image()
		case 9:
			if g.simple > 0 {
				break
			}
			return MPart{K: "lnk", V: r.Pick("f", g.ref(), "d/"+g.ref(), g.ref()+"/f", "f"+g.ref()) + ".lnk", N: g.alt(), W: g.tok()}
		}
		return MPart{K: "t", V: g.tok()}
	}
	if r.P(6) && g.nonote == 0 && g.simple == 0 {
		if r.P(20) {
			return MPart{K: "t", V: g.tok(), W: r.Pick("*", "_", "role", "roles", "dq", "*_", "#"), Sub: []MPart{g.note()}}
		}
		return g.note()
	}
	if r.P(5) {
		return MPart{K: "ref", N: g.attr()}
	}
	if r.P(3) {
		return MPart{K: "xref", N: "nowhere", V: g.tok()}
	}
	if r.P(35) {
		return MPart{K: "t", V: g.tok(), W: r.Pick("*", "_", "#", "`", "*", "_", "role", "*_", "url", "link", "+", "pass", "dq", "anchor", "index", "image", "icon", "hidden", "auto", "mail", "passq", "triple", "dollar", "escq", "copy", "special", "xreflink", "roles")}
	}
	return MPart{K: "t", V: g.tok()}
}

func (g *mgen) image() MPart {
	p := MPart{K: "img", V: g.r.Pick("a.png", "img/b.svg", "c_d.png", "a.png", "/e.png", "https://example.org/f.png", "../g.png")}
	if g.profile == "C03" {
		if g.r.P(15) {
			p.V, p.W = g.r.Pick(g.ref()+".png", "i"+g.ref()+".png", "i/"+g.ref()+"/a.png"), g.tok()
		}
		p.N = g.alt()
	}
	return p
}

func (g *mgen) ref() string { return "{" + g.attr() + "}" }

// punct is something which may be in front of a reference within a value in quotes
func (g *mgen) punct() string {
	return g.r.Pick("(", "-", "=", ",", ":", ".", ";", "/", "#", "%", "!", "?", "a-", "3", "é")
}

// attribution is the author of a quote, maybe with a title
func (g *mgen) attribution() string {
	if g.profile != "C03" || g.r.P(40) {
		return ""
	}
	v := "\"" + g.tok() + g.r.Pick("", " ") + g.r.Pick("", g.punct()) + g.ref() + g.r.Pick("", ")") + "\""
	if g.r.P(60) {
		v += ", \"" + g.r.Pick("", g.tok(), g.tok()+" ") + g.r.Pick("", g.punct()) + g.ref() + "\""
	}
	return v
}

// alt is the text of an attribute in quotes, with references to other attributes
func (g *mgen) alt() string {
	r := g.r
	return r.Pick("", "", g.punct()+g.ref(), "a"+g.ref(), g.tok()+g.punct()+g.ref(), g.ref(), g.ref()+g.ref(), g.tok()+" "+g.ref(), "x"+g.ref()+"y, "+g.ref(), g.ref()+" = "+g.tok())
}

func (g *mgen) note() MPart {
	t := g.toks(1, 3)
	if g.profile == "C03" && g.r.P(40) {
		t += " {" + g.attr() + "}"
	}
	p := MPart{K: "fn", V: t, W: g.tok()}
	if g.r.P(35) {
		p.N = "fn" + g.r.Pick("a", "b", "c")
	}
	return p
}

func (g *mgen) macroPart() MPart {
	p := MPart{K: "macro", N: g.macros[g.r.N(len(g.macros))], V: g.tok()}
	if g.r.P(40) {
		p.V = g.r.Pick("va", "vb")
	}
	if g.r.P(30) {
		p.W = g.r.Pick("sa", "sb")
	}
	return p
}

func (g *mgen) text(a, b int) []MPart {
	n := g.r.R(a, b)
	p := make([]MPart, 0, n)
	for i := 0; i < n; i++ {
		x := g.part()
		if i == 0 && (x.W != "" && x.K != "fn" || x.K == "esc" || x.K == "lit" || x.K == "xref" || x.K == "ctr2" || x.K == "ref") && g.r.P(85) {
			p = append(p, MPart{K: "t", V: g.tok()})
		}
		p = append(p, x)
	}
	return p
}

// words is a text without anything special
func (g *mgen) words(a, b int) []MPart {
	return []MPart{{K: "t", V: g.toks(a, b)}}
}

// lots is a number within the limits, seldom far above
func (g *mgen) lots(a, b int) int {
	if g.large && g.depth == 0 && g.attached == 0 && g.r.P(8) {
		return g.r.R(b, b*g.r.Pick2(6, 30))
	}
	return g.r.R(a, b)
}

func (g *mgen) lines(a, b int) [][]MPart {
	n := g.lots(a, b)
	l := make([][]MPart, n)
	for i := range l {
		l[i] = g.text(1, 5)
		if l[i][0].K != "t" && !(g.profile == "C03" && l[i][0].K == "ref" && g.r.P(15)) {
			l[i] = append([]MPart{{K: "t", V: g.tok()}}, l[i]...)
		}
	}
	return l
}

func (g *mgen) blockTitle(p int) []MPart {
	if !g.r.P(p) {
		return nil
	}
	g.nonote++
	g.simple++
	defer func() { g.nonote--; g.simple-- }()
	t := []MPart{{K: "t", V: g.tok()}}
	if g.profile == "C03" && g.r.P(6) {
		return []MPart{{K: "ref", N: g.attr()}} // (which may be empty)
	}
	if g.profile == "C20" && g.r.P(30) {
		t = append(t, g.macroPart())
	}
	if g.profile == "C03" && g.r.P(40) {
		t = append(t, MPart{K: "ref", N: g.attr()})
	}
	if g.images > 0 && g.r.P(30) {
		t = append(t, g.image())
	}
	if g.profile == "C02" && g.r.P(30) {
		t = append(t, MPart{K: "t", V: g.tok(), W: g.r.Pick("*", "_", "`")})
	}
	if g.profile != "C20" && g.nonote == 1 && g.r.P(12) {
		t = append(t, g.note())
	}
	return t
}

// marked is a word with marks which mean something in normal text only
func (g *mgen) marked() string {
	t := g.tok()
	return g.r.Pick("*"+t+"*", "_"+t+"_", "`"+t+"`", "#"+t+"#", t+"(C)", t+"'s", t+"...", t+"->", "\"`"+t+"`\"", "<"+t+">", t+"&amp;", "https://"+t+".org[x]", t+"\\")
}

func (g *mgen) para() MItem {
	r := g.r
	it := MItem{K: "para", P: g.lines(1, 3), A: g.blockAttr()}
	if r.P(18) {
		it.C = r.Pick("NOTE", "TIP", "WARNING", "IMPORTANT", "CAUTION")
	} else if r.P(8) {
		it.C = "lead"
	} else if g.profile == "C02" && r.P(22) {
		it.C = r.Pick("literal", "quotepara", "mdquote", "versepara", "sidebarpara", "listingpara", "sourcepara")
		g.nonote++
		g.simple++
		switch it.C {
		case "literal", "listingpara", "sourcepara":
			it.P = [][]MPart{g.words(1, 4)}
			if r.P(40) {
				it.P = append(it.P, g.words(1, 3))
			}
			if it.C != "literal" && r.P(50) {
				k := r.N(len(it.P))
				it.P[k] = append(it.P[k], MPart{K: "t", V: g.marked()})
			}
		default:
			it.P = g.lines(1, 2)
		}
		g.nonote--
		g.simple--
		if it.C == "quotepara" {
			if it.V = g.attribution(); it.V == "" {
				it.V = g.tok()
			}
		}
	}
	it.T = g.blockTitle(10)
	if g.profile == "C02" && it.C == "" {
		if len(it.P) > 1 && r.P(10) {
			it.Items = []MItem{{P: [][]MPart{g.words(1, 2)}}}
		} else if it.A == "" && r.P(4) {
			it.A = "%hardbreaks"
		}
		for k := range it.P {
			if r.P(5) && k == len(it.P)-1 {
				it.P[k] = append(it.P[k], MPart{K: "t", V: g.tok(), W: "br"})
			}
		}
	}
	return it
}

func (g *mgen) decl() MItem {
	it := g.decl1()
	if g.profile == "C03" {
		if len(g.declared) > 0 && g.r.P(30) {
			// again one of those which were declared before
			it.N = g.declared[g.r.N(len(g.declared))]
			if it.K == "decl" {
				switch it.N {
				case "sectnums":
					it.V = ""
				case "imagesdir":
					it.V = g.r.Pick("imgs", "di/r", "./im/", "", "/abs")
				case "idprefix":
					it.V = g.r.Pick("id_", "x", "_", "")
				case "idseparator":
					it.V = g.r.Pick("-", "_", "")
				case "figure-caption", "table-caption", "example-caption":
					it.V = g.r.Pick("Abb", "Tafel", "Ex", "Caption", "Two Words", "Fig & Co", "L'image <1>", "")
				default:
					it.V = g.tok()
				}
			}
		} else if it.K == "decl" {
			g.declared = append(g.declared, it.N)
		}
	}
	return it
}

func (g *mgen) decl1() MItem {
	r := g.r
	if g.profile == "C03" && (r.P(22) || g.idtheme && r.P(60)) {
		if g.idtheme && r.P(70) {
			n := r.Pick("idprefix", "idseparator")
			if r.P(40) {
				return MItem{K: "reset", N: n, V: r.Pick("", "!")}
			}
			if n == "idseparator" {
				return MItem{K: "decl", N: n, V: r.Pick("-", "_", "")}
			}
			return MItem{K: "decl", N: n, V: r.Pick("id_", "x", "-", "_", "")}
		}
		n := r.Pick("figure-caption", "table-caption", "example-caption", "sectnums", "sectnums", "idprefix", "idseparator", "imagesdir")
		if g.images > 0 && r.P(30) {
			n = "imagesdir"
		}
		switch n {
		case "imagesdir":
			if r.P(30) {
				return MItem{K: "reset", N: n, V: r.Pick("", "!")}
			}
			return MItem{K: "decl", N: n, V: r.Pick("imgs", "di/r", "./im/", "", "/abs")}
		case "sectnums":
			if r.P(40) {
				return MItem{K: "reset", N: n, V: r.Pick("", "!")}
			}
			return MItem{K: "decl", N: n}
		case "idprefix":
			if r.P(30) {
				return MItem{K: "reset", N: n, V: r.Pick("", "!")}
			}
			return MItem{K: "decl", N: n, V: r.Pick("id_", "x", "_", "")}
		case "idseparator":
			if r.P(30) {
				return MItem{K: "reset", N: n, V: r.Pick("", "!")}
			}
			return MItem{K: "decl", N: n, V: r.Pick("-", "_", "")}
		}
		if r.P(30) {
			return MItem{K: "reset", N: n, V: r.Pick("", "!")}
		}
		return MItem{K: "decl", N: n, V: r.Pick("Abb", "Tafel", "Ex", "Caption", "Two Words", "Fig & Co", "L'image <1>", "")}
	}
	n := g.attr()
	if g.profile == "C03" && r.P(25) {
		return MItem{K: "reset", N: n, V: r.Pick("", "!")}
	}
	v := g.tok()
	switch {
	case r.P(12):
		v = ""
	case r.P(35):
		v += " {" + g.attr() + "}"
		if r.P(50) {
			v += " " + g.tok()
		}
	case r.P(20):
		v = "{" + g.attr() + "}"
	case r.P(15):
		v = strconv.Itoa(r.R(0, 12))
	}
	if g.profile != "C03" && strings.Contains(v, "{") {
		v = g.toks(1, 2)
	}
	return MItem{K: "decl", N: n, V: v}
}

func (g *mgen) cond() MItem {
	r := g.r
	it := MItem{K: "cond", C: r.Pick("ifdef", "ifdef", "ifndef"), N: g.attr(), L: r.N(3)}
	if r.P(25) {
		it.V = "named"
	}
	if r.P(30) {
		// (the current value, or another one)
		it.C, it.V = "ifeval", r.Pick("=", "=", "!=", "other", "!other", "<", "<=", ">", ">=", "=+", "=-", "!=+", "<+", "<=-", ">-", ">=+", "<-", ">=-", "<other", ">other", "<=other", ">=other")
		it.V = r.Pick("", "", "", "R", "Q", "N", "RQ", "RN") + it.V
	}
	if it.L == 2 {
		it.L = 0
	}
	if g.profile == "C03" && r.P(25) && it.C != "ifeval" {
		l := g.decl()
		if r.P(20) {
			l = g.section()
			l.N = ""
		}
		return MItem{K: "condline", C: it.C, N: it.N, Items: []MItem{l}}
	}
	if r.P(15) && it.C != "ifeval" {
		return MItem{K: "condline", C: it.C, N: it.N, P: [][]MPart{g.words(1, 3)}}
	}
	n := r.R(1, 3)
	it.Items = g.many(n)
	return it
}

func (g *mgen) many(n int) []MItem {
	var l []MItem
	g.depth++
	for i := 0; i < n; i++ {
		l = append(l, g.block())
	}
	g.depth--
	return l
}

func (g *mgen) list(lvl int) MItem {
	r := g.r
	it := MItem{K: "list", C: r.Pick("ul", "ol", "dl", "ul", "ol")}
	if lvl == 1 && r.P(25) {
		it.C = r.Pick("dash", "check", "num")
	}
	if it.C == "dl" && lvl > 3 {
		it.C = "ul" // (there is no further kind of separator)
	}
	if it.C == "dl" && lvl == 1 && g.profile == "C02" && r.P(30) {
		it.V = r.Pick("qanda", "horizontal")
	}
	for n := g.lots(1, 4); n > 0; n-- {
		e := MItem{}
		if it.C == "dl" {
			e.T = g.words(1, 2)
		}
		e.P = [][]MPart{g.text(1, 4)}
		if e.P[0][0].K != "t" {
			e.P[0] = append([]MPart{{K: "t", V: g.tok()}}, e.P[0]...)
		}
		if r.P(15) && it.C != "dl" {
			e.P = append(e.P, g.words(1, 3))
		}
		if r.P(18) && it.C != "dash" && it.C != "check" && it.C != "num" {
			g.attached++
			for k := r.R(1, 2); k > 0; k-- {
				l := g.leaf()
				if g.profile == "C02" && r.P(12) && (l.K == "verb" || l.K == "blk" || l.K == "table") && len(l.Items) == 0 {
					l.L2, l.Tail = 1, g.words(1, 2)
				}
				e.Items = append(e.Items, l)
			}
			g.attached--
		}
		if lvl < 4 && r.P(20) && (it.C == "ul" || it.C == "ol" || it.C == "dl") {
			sub := g.list(lvl + 1)
			if sub.C == it.C || sub.C == "ul" || sub.C == "ol" || sub.C == "dl" {
				e.Items = append(e.Items, sub)
			}
		}
		if g.profile == "C02" && r.P(5) && len(e.Items) == 0 {
			e.N = g.tok()
		}
		if r.P(5) && len(e.Items) == 0 {
			e.L = 1
		}
		it.Items = append(it.Items, e)
	}
	return it
}

func (g *mgen) verb() MItem {
	r := g.r
	it := MItem{K: "verb", C: r.Pick("listing", "source", "literal", "fenced", "attrs")}
	if g.profile == "C02" && g.depth == 0 && g.attached == 0 && r.P(15) {
		it.C = r.Pick("listing", "source")
		for n := r.R(1, 3); n > 0; n-- {
			it.P = append(it.P, g.words(1, 3))
			it.Items = append(it.Items, MItem{P: [][]MPart{g.words(1, 3)}})
		}
		return it
	}
	if g.profile == "C02" && r.P(20) {
		it.C = r.Pick("verse", "pass")
	}
	g.nonote++
	defer func() { g.nonote-- }()
	for n := g.lots(1, 4); n > 0; n-- {
		l := g.words(1, 3)
		if it.C != "pass" {
			if g.profile == "C03" && r.P(40) {
				l = append(l, MPart{K: "ref", N: g.attr()})
			}
			if g.profile == "C03" && r.P(20) && it.C == "attrs" {
				l = append(l, MPart{K: "ctr", N: r.Pick("ca", "cb")})
			}
		}
		if r.P(25) && it.C != "attrs" && it.C != "verse" && it.C != "pass" {
			switch r.N(4) {
			case 0:
				l = append([]MPart{{K: "t", V: "=="}}, l...)
			case 1:
				l = []MPart{{K: "t", V: "*"}, {K: "t", V: g.tok()}}
			case 2:
				l = []MPart{{K: "t", V: ":alpha:"}, {K: "t", V: g.tok()}}
			case 3:
				l = append(l, MPart{K: "t", V: "footnote:[" + g.tok() + "]"})
			}
		}
		it.P = append(it.P, l)
	}
	if it.C != "pass" {
		it.T = g.blockTitle(20)
		it.A = g.blockAttr()
	}
	if g.profile == "C02" && r.P(15) && it.C != "pass" && it.C != "verse" {
		it.N, it.RawSel = r.Pick("txt", "rb", "go"), r.Pick("", "", "lines", "lines-", "tags", "nested", "not", "all", "again-b", "again-star", "again-starnot", "again-allnot", "again-ab", "again-quoted", "again-anot")
		if r.P(30) {
			sep := r.Pick(";", ",")
			it.RawSel = "lines@"
			for k := r.R(1, 4); k > 0; k-- {
				lo := r.R(1, 10)
				it.RawSel += fmt.Sprint(lo)
				switch r.N(4) {
				case 0:
					it.RawSel += ".." + fmt.Sprint(lo+r.N(4))
				case 1:
					it.RawSel += "..-1"
				case 2:
					it.RawSel += ".." + fmt.Sprint(r.R(1, 12))
				}
				if k > 1 {
					it.RawSel += sep
				}
			}
		}
		for n := r.R(7, 9); n > 0; n-- {
			it.Raw = append(it.Raw, g.toks(1, 2))
		}
	}
	return it
}

// blockAttr is a line of attributes in front of a block
func (g *mgen) blockAttr() string {
	if g.profile != "C02" || !g.r.P(12) {
		return ""
	}
	g.anchors++
	return g.r.Pick(".r1", ".r1.r2", fmt.Sprintf("#anchor%d", g.anchors), fmt.Sprintf("[anchor%d]", g.anchors), "role=r3", fmt.Sprintf("id=anchor%d", g.anchors), "%unbreakable")
}

func (g *mgen) table() MItem {
	r := g.r
	it := MItem{K: "table", L: r.R(1, 4), C: r.Pick("header", "footer", "cols", "cols2", "plain", "implicit"), V: r.Pick("", "", "lines")}
	if it.C == "plain" || it.C == "implicit" {
		it.V = ""
	}
	rows := g.lots(1, 4)
	if it.C == "implicit" {
		rows++
	}
	missing := 0
	if it.L > 1 && rows > 2 && r.P(30) {
		missing = r.R(1, it.L-1) // the last row is not complete
	}
	if it.C == "footer" {
		rows++
	}
	for k := rows*it.L - missing; k > 0; k-- {
		n := len(it.P)
		if (it.C == "header" || it.C == "footer") && n < it.L && r.P(12) {
			it.P = append(it.P, nil) // (an empty cell of the header)
			continue
		}
		it.P = append(it.P, g.text(1, 2))
		if it.V == "lines" && strings.HasPrefix(it.C, "cols") && n >= it.L && n < (rows-1)*it.L && r.P(20) {
			it.Items = append(it.Items, MItem{K: "cell", L2: n, C: r.Pick("*", "*", "-", "."), P: g.lines(1, 3)})
			for k, l := range it.Items[len(it.Items)-1].P {
				if l[0].K != "t" || l[0].W != "" {
					it.Items[len(it.Items)-1].P[k] = append([]MPart{{K: "t", V: g.tok()}}, l...)
				}
			}
		}
	}
	it.T = g.blockTitle(60)
	return it
}

// leaf is a block to be attached to the item of a list
func (g *mgen) leaf() MItem {
	switch g.r.N(6) {
	case 0, 1:
		return g.verb()
	case 2:
		return g.fig()
	case 3:
		return g.table()
	case 4:
		if g.depth < 3 {
			return g.delim()
		}
	}
	it := g.para()
	if it.C == "literal" || it.C == "mdquote" {
		it.C = ""
	}
	return it
}

func (g *mgen) fig() MItem {
	it := MItem{K: "fig", C: g.r.Pick("a.png", "img/b.svg", "a.png", "/e.png"), T: g.blockTitle(75)}
	if g.profile == "C03" {
		if g.r.P(15) {
			it.C = g.r.Pick(g.ref()+".png", "i"+g.ref()+".png", "i/"+g.ref()+"/a.png")
		}
		it.V = g.alt()
	}
	return it
}

func (g *mgen) delim() MItem {
	r := g.r
	it := MItem{K: "blk", C: r.Pick("example", "example", "sidebar", "quote", "NOTE", "TIP", "open")}
	if it.C == "open" && g.depth > 0 {
		it.C = "example"
	}
	if it.C == "quote" && r.P(50) {
		if it.V = g.attribution(); it.V == "" {
			it.V = g.tok()
		}
	}
	if it.V != "" && g.profile == "C02" && r.P(50) {
		it.V += ", " + g.tok()
	}
	it.T = g.blockTitle(35)
	it.A = g.blockAttr()
	g.depth++
	for n := r.R(1, 3); n > 0; n-- {
		switch r.W(40, 14, 10, 12, 12, 12) {
		case 0:
			p := g.para()
			it.Items = append(it.Items, p)
		case 1:
			it.Items = append(it.Items, g.list(2))
		case 2:
			it.Items = append(it.Items, g.fig())
		case 3:
			if g.depth < 3 {
				it.Items = append(it.Items, g.delim())
			} else {
				it.Items = append(it.Items, g.verb())
			}
		case 4:
			it.Items = append(it.Items, g.verb())
		case 5:
			// (where the attributes of the sections take effect within a block is not specified)
			if d := g.decl(); d.N != "sectnums" && d.N != "idprefix" && d.N != "idseparator" {
				it.Items = append(it.Items, d)
			}
		}
	}
	g.depth--
	return it
}

// id names the n-th section or block to refer to
func (g *mgen) id(kind string, n int) string {
	if n%3 == 1 {
		kind = strings.ToUpper(kind[:1]) + kind[1:]
	}
	return fmt.Sprintf("%s%s%d", kind, g.pre, n)
}

func (g *mgen) section() MItem {
	r := g.r
	g.level = r.R(1, min(g.level+1, 5))
	it := MItem{K: "sec", L: g.level}
	it.T = g.words(1, 2)
	if r.P(25) {
		it.T = []MPart{{K: "t", V: r.Pick("Same Title", "Same Title", "Same title", "Dup", "Dup", "DUP", "Dup 2", "Same Title 3")}}
	}
	if g.profile == "C03" && r.P(30) {
		it.T = append(it.T, MPart{K: "ref", N: g.attr()})
		if r.P(20) {
			it.T = it.T[1:] // (which may be empty)
		}
	}
	if g.profile == "C03" && r.P(12) {
		it.T = append(it.T, MPart{K: "ctr", N: r.Pick("ca", "cb", "cc")})
	}
	if r.P(25) {
		id := g.id("sec", len(g.ids))
		g.ids = append(g.ids, id)
		it.N = id
	}
	return it
}

// block draws an item of the top level
func (g *mgen) block() MItem {
	if g.depth == 0 && g.attached == 0 && len(g.again) > 0 && g.r.P(5) {
		// a block which the document has already
		k := len(g.again) - 1
		if g.r.P(60) {
			k = g.r.N(len(g.again))
		}
		return cloneItems(g.again[k : k+1])[0]
	}
	it := g.block0()
	defer func() {
		if g.depth == 0 && g.attached == 0 && repeatable(it) {
			g.again = append(g.again, it)
		}
	}()
	if (it.K == "fig" || it.K == "table" || it.K == "blk" && it.C == "example") && g.r.P(12) {
		// in place of the usual caption, without a number
		it.Cap = g.tok() + g.r.Pick(" ", ": ", "")
		if g.profile == "C03" && g.r.P(60) {
			it.Cap = g.alt() + g.r.Pick(" ", ": ", "")
		}
	}
	if it.A == "" && len(it.T) > 0 && it.K != "sec" && it.T[len(it.T)-1].K != "fn" && g.r.P(45) {
		// something to refer to
		id := g.id("blk", len(g.blocks))
		g.blocks = append(g.blocks, id)
		it.A = g.r.Pick("#", "#", "id=") + id
	}
	return it
}

// repeatable says that the block may occur twice (there are no ids, and nothing to exclude)
func repeatable(it MItem) bool {
	switch it.K {
	case "comment", "incl", "cond", "condline", "decl", "reset":
		return false
	case "para":
		if len(it.Items) > 0 {
			return false
		}
	}
	if strings.ContainsAny(it.A, "#[") || strings.Contains(it.A, "id=") || it.K == "sec" && it.N != "" || it.RawSel != "" || len(it.Raw) > 0 {
		return false
	}
	for _, l := range append(append([][]MPart{it.T}, it.P...), it.Tail) {
		for _, p := range l {
			if p.W == "anchor" || (p.K == "ctr" || p.K == "ctr2") && p.V != "" || p.K == "fn" && p.N != "" {
				return false
			}
		}
	}
	for _, i := range it.Items {
		if !repeatable(i) {
			return false
		}
	}
	return true
}

func (g *mgen) block0() MItem {
	r := g.r
	var w []int
	switch g.profile {
	case "C03": // para decl cond sec fig table delim verb comment list incl break bmacro
		w = []int{30, 20, 9, 14, 5, 4, 8, 5, 3, 8, 3, 1, 0}
	case "C20":
		w = []int{34, 3, 6, 10, 2, 8, 10, 5, 3, 12, 4, 1, 16}
	default:
		w = []int{30, 3, 6, 14, 5, 6, 12, 9, 6, 13, 4, 2, 0}
	}
	if g.theme >= 0 {
		w[g.theme] *= 5
	}
	if g.depth > 2 {
		w[2], w[10] = 0, 0
	}
	switch r.W(w...) {
	case 1:
		return g.decl()
	case 2:
		return g.cond()
	case 3:
		return g.section()
	case 4:
		return g.fig()
	case 5:
		return g.table()
	case 6:
		return g.delim()
	case 7:
		return g.verb()
	case 8:
		it := MItem{K: "comment", C: r.Pick("", "block")}
		for n := r.R(1, 2); n > 0; n-- {
			it.P = append(it.P, g.words(1, 3))
		}
		if it.C == "block" && r.P(40) {
			it.P = append(it.P, []MPart{{K: "t", V: ":" + g.attr() + ":"}, {K: "t", V: g.tok()}})
		}
		return it
	case 9:
		it := g.list(1)
		it.T = g.blockTitle(12)
		return it
	case 10:
		return g.include()
	case 11:
		return MItem{K: "break", C: r.Pick("'''", "***", "---")}
	case 12:
		it := MItem{K: "bmacro", N: g.macros[r.N(len(g.macros))], V: g.tok()}
		if r.P(40) {
			it.V = r.Pick("va", "vb")
		}
		if r.P(30) {
			it.C = r.Pick("sa", "sb")
		}
		return it
	}
	return g.para()
}

func (g *mgen) include() MItem {
	r := g.r
	it := MItem{K: "incl", N: r.Pick("", "", "a", "b/c")}
	switch r.W(50, 16, 17, 17) {
	case 0:
		it.Items = g.many(r.R(1, 4))
		return it
	case 1:
		it.C, it.L = "offset", r.R(1, 2)
		if r.P(40) {
			it.C = "absoffset"
		}
		it.Items = g.many(r.R(1, 4))
		return it
	case 2:
		it.C = "lines"
	case 3:
		it.C = "tag"
		if r.P(50) {
			it.V = g.tok()
		}
	}
	// only blocks which are complete by themselves
	n := r.R(2, 5)
	it.L = r.R(0, 2)
	for i := 0; i < n; i++ {
		p := g.para()
		if r.P(30) {
			p = g.verb()
		}
		it.Items = append(it.Items, p)
	}
	return it
}

func (g *mgen) doc(n int) MDoc {
	r := g.r
	d := MDoc{}
	g.theme = -1
	if g.profile == "C03" && r.P(30) {
		g.images = r.Pick2(6, 20)
	}
	if r.P(35) {
		g.theme = r.N(13)
	}
	if g.profile == "C03" && r.P(12) {
		g.idtheme, g.theme = true, 3
	}
	if r.P(70) {
		d.Title = g.words(1, 3)
		if r.P(25) && g.profile == "C03" {
			d.Author = r.Pick("Jane Doe", "Kim Roe", "Élodie Œuf", "Kim Roe; Ömer Ünal", "Jane Doe; Kim Roe; 真 央")
			if r.P(50) {
				d.Rev = r.Pick("1.0", "2.3")
			}
		}
		for k := r.N(4); k > 0; k-- {
			if g.profile == "C03" && r.P(15) {
				d.Header = append(d.Header, MItem{K: "condline", C: r.Pick("ifdef", "ifndef"), N: g.attr(), Items: []MItem{g.decl()}})
				continue
			}
			d.Header = append(d.Header, g.decl())
		}
		if g.profile == "C02" && r.P(20) {
			d.Header = append(d.Header, MItem{K: "decl", N: "source-highlighter", V: r.Pick("chroma", "chroma", "pygments", "rouge")})
		}
		if g.profile != "C20" && r.P(30) {
			d.Header = append(d.Header, MItem{K: "decl", N: "toc", V: r.Pick("", "", "preamble")})
			if r.P(50) {
				d.Header = append(d.Header, MItem{K: "decl", N: "toclevels", V: r.Pick("1", "2", "3", "4", "5")})
			}
			if g.profile == "C03" && r.P(40) {
				d.Header = append(d.Header, MItem{K: "decl", N: "toc-title", V: r.Pick("", "On this page", g.tok(), g.tok()+" "+g.ref(), g.ref())})
				if r.P(20) {
					d.Header = append(d.Header, MItem{K: "reset", N: "toc-title", V: r.Pick("", "!")})
				}
			}
		}
	}
	if len(d.Title) == 0 && r.P(50) {
		d.Items = append(d.Items, g.para())
	}
	for i := 0; i < n; i++ {
		d.Items = append(d.Items, g.block())
	}
	return d
}
