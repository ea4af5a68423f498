//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"html"
	"regexp"
	"strings"
)

func genModel(r *Rng, profile string) *Scenario {
	sc := &Scenario{}
	m := &MModel{}
	tasks, ops := 1, 1
	if r.P(15) {
		tasks = 2
	}
	if r.P(15) {
		ops = 2
	}
	for t := 0; t < tasks; t++ {
		var ts TaskSpec
		var ds []MDoc
		for o := 0; o < ops; o++ {
			g := &mgen{r: r, profile: profile, pre: string(rune('a' + t*2 + o))}
			g.large = r.P(12)
			n := []int{r.R(1, 5), r.R(4, 14), r.R(12, 30), r.R(40, 110), r.R(120, 400)}[r.W(70, 80, 40, 10, 1)]
			op := Op{Kind: "convert", Cfg: Cfg{Backend: r.Pick("html5", "html5", "xhtml5"), HF: r.P(40)}}
			if profile == "C20" {
				for _, nm := range []string{"hello", "chart", "calc"} {
					if r.P(70) {
						op.Cfg.Macros = append(op.Cfg.Macros, MacroSpec{Name: nm, Mode: r.Pick("", "template", "yield")})
					}
				}
				g.macros = []string{"hello", "chart", "calc"}
				if len(op.Cfg.Macros) > 0 && r.P(25) {
					k := r.N(len(op.Cfg.Macros))
					op.Cfg.Macros[k].Mode, op.Cfg.Macros[k].FailOn = "fail", r.R(1, 4)
				}
			}
			if profile == "C03" {
				for _, a := range mattrs {
					if r.P(8) {
						op.Cfg.Attrs = append(op.Cfg.Attrs, Attr{a, r.Pick("api"+a, "", "api value")})
						if r.P(25) {
							op.Cfg.Attrs[len(op.Cfg.Attrs)-1].V = nil // unset
						}
					}
				}
				for _, a := range []string{"sectnums", "figure-caption", "table-caption", "example-caption", "idprefix", "idseparator", "toclevels", "toc-title", "imagesdir"} {
					if r.P(5) {
						v := r.Pick("Api", "Api", "")
						switch a {
						case "sectnums":
							v = ""
						case "idprefix":
							v = r.Pick("", "api_", "z")
						case "idseparator":
							v = r.Pick("", "-")
						case "imagesdir":
							v = r.Pick("apidir", "api/", "/abs")
						case "toclevels":
							v = r.Pick("1", "3")
						}
						op.Cfg.Attrs = append(op.Cfg.Attrs, Attr{a, v})
						if r.P(25) {
							op.Cfg.Attrs[len(op.Cfg.Attrs)-1].V = nil
						}
					}
				}
			}
			d := g.doc(n)
			d.Root = fmt.Sprintf("/d%d%d", t, o)
			d.FromMem = r.P(60)
			if d.FromMem {
				op.R = genReader(r, 2000)
			}
			ds = append(ds, d)
			ts.Ops = append(ts.Ops, op)
		}
		m.Docs = append(m.Docs, ds)
		sc.Tasks = append(sc.Tasks, ts)
	}
	sc.Expect = mustJSON(m)
	buildModel(sc)
	if r.P(20) {
		sc.ShortP, sc.FSSeed = 300, r.U()
	}
	addSched(r, sc)
	return sc
}

// buildModel computes the sources from the documents of the model
func buildModel(sc *Scenario) [][]mexpect {
	m := &MModel{}
	if err := json.Unmarshal(sc.Expect, m); err != nil {
		panic(err)
	}
	sc.Files = nil
	var all [][]mexpect
	for t := range m.Docs {
		var es []mexpect
		for o := range m.Docs[t] {
			d := &m.Docs[t][o]
			op := &sc.Tasks[t].Ops[o]
			e := evalDoc(d, op.Cfg)
			sc.Files = append(sc.Files, e.files...)
			op.Cfg.Filename = d.Root + "/main.adoc"
			if d.FromMem {
				op.Kind, op.Src = "convert", Text(e.src)
			} else {
				op.Kind, op.Src = "convertfile", ""
				sc.Files = append(sc.Files, File{Path: op.Cfg.Filename, Data: Text(e.src), Mtime: 1600000000 * 1e9})
			}
			es = append(es, e)
		}
		all = append(all, es)
	}
	return all
}

var imgRx = regexp.MustCompile(`<img src="([^"]*)" alt="([^"]*)"|<a href="([^"]*\.lnk)"`)

func onlyTokens(s string) string {
	var p []string
	for _, w := range strings.Fields(s) {
		for {
			i := strings.Index(w, "zq")
			if i < 0 {
				break
			}
			j := strings.Index(w[i+2:], "z")
			if j < 0 {
				break
			}
			p = append(p, w[i:i+2+j+1])
			w = w[i+2+j+1:]
		}
	}
	return strings.Join(p, " ")
}

func evalModel(x *Ctx, sc *Scenario, profile string) ([]Viol, error) {
	exp := buildModel(sc)
	for _, es := range exp {
		for _, e := range es {
			if e.invalid != "" {
				x.Probe("unspecified: " + e.invalid)
				return nil, nil
			}
		}
	}
	res, err := x.Run(sc)
	if err != nil {
		return nil, err
	}
	v := worldViols(res)
	if len(v) > 0 {
		return v, nil
	}
	for t := range exp {
		for o := range exp[t] {
			got := &res.Ops[t][o]
			v = append(v, checkModel(x, sc, &sc.Tasks[t].Ops[o], got, &exp[t][o], profile)...)
		}
	}
	return v, nil
}

func checkModel(x *Ctx, sc *Scenario, op *Op, got *OpResult, e *mexpect, profile string) []Viol {
	if profile == "C20" {
		return checkMacros(x, op, got, e)
	}
	if got.Class != "ok" {
		if got.Class == "error" {
			return []Viol{{"unexpected failure", clip(got.Err, 600)}}
		}
		return []Viol{{"unexpected " + got.Class, clip(got.Panic, 600)}}
	}
	body, toc := bodyOf(string(got.Out), op.Cfg.HF)
	words := plain(body)
	if profile == "C02" {
		if errorLogged(got) {
			x.Probe("error logged")
			return nil
		}
		x.Probe("documents compared")
		if g, w := onlyTokens(words), onlyTokens(e.words); g != w {
			return []Viol{classifyTokens(g, w, e)}
		}
		for _, ex := range e.excl {
			if ex = onlyTokens(ex); ex != "" && !strings.Contains(e.words, ex) && !strings.Contains(ex, " ") && strings.Contains(words, ex) {
				return []Viol{{"excluded text appears", fmt.Sprintf("%q is in a comment, an excluded region or not selected from an included file", ex)}}
			}
		}
		return nil
	}
	x.Probe("documents compared")
	var v []Viol
	h := headsOf(body)
	for i := 0; i < len(h) || i < len(e.heads); i++ {
		if i >= len(h) || i >= len(e.heads) || h[i] != e.heads[i] {
			g, w := mhead{}, mhead{}
			if i < len(h) {
				g = h[i]
			}
			if i < len(e.heads) {
				w = e.heads[i]
			}
			kind := "section number or title"
			if g.text == w.text && g.level == w.level {
				kind = "section id"
			}
			v = append(v, Viol{kind, fmt.Sprintf("section %d: got %+v, expected %+v", i+1, g, w)})
			break
		}
	}
	if len(v) == 0 {
		v = append(v, checkToc(x, toc, e)...)
	}
	if len(v) == 0 && words != e.words {
		v = append(v, Viol{"value", wordDiff(words, e.words)})
	}
	if len(v) == 0 {
		n := 0
		for _, m := range imgRx.FindAllStringSubmatch(body, -1) {
			g := strings.Join(strings.Fields(html.UnescapeString(m[1]+m[3])), " ")
			w := ""
			if n < len(e.imgs) {
				w = e.imgs[n]
			}
			n++
			if i := strings.Index(w, "\x01"); i >= 0 {
				if x := strings.Join(strings.Fields(html.UnescapeString(m[2])), " "); x != w[i+1:] {
					v = append(v, Viol{"alternative text", wordDiff(x, w[i+1:])})
					break
				}
				x.Probe("alternative texts compared")
				w = w[:i]
			}
			if g != w {
				v = append(v, Viol{"path of an image", wordDiff(g, w)})
				break
			}
		}
		if n < len(e.imgs) && len(v) == 0 {
			v = append(v, Viol{"path of an image", "no image for " + e.imgs[n]})
		}
		if len(e.imgs) > 0 {
			x.Probe("paths of images compared")
		}
	}
	return v
}

// checkToc compares the table of contents with the sections
func checkToc(x *Ctx, toc string, e *mexpect) []Viol {
	var want, got []string
	if e.toc == "preamble" && toc == "" {
		return nil // without a preamble
	}
	if e.toc != "none" {
		for _, h := range e.heads {
			if h.level-1 <= e.levels {
				want = append(want, "#"+h.id+" "+h.text)
			}
		}
	}
	for _, m := range tocLnkRx.FindAllStringSubmatch(toc, -1) {
		got = append(got, "#"+m[1]+" "+plain(m[2]))
	}
	if m := tocTitleRx.FindStringSubmatch(toc); m != nil {
		if g, w := plain(m[1]), strings.Join(strings.Fields(e.tocTitle), " "); g != w {
			return []Viol{{"title of the table of contents", fmt.Sprintf("got %q, expected %q", g, w)}}
		}
	}
	if len(want) > 0 {
		x.Probe("tables of contents compared")
	}
	if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w {
		return []Viol{{"table of contents", wordDiff(g, w)}}
	}
	return nil
}

func classifyTokens(g, w string, e *mexpect) Viol {
	count := map[string]int{}
	for _, t := range strings.Fields(w) {
		count[t]++
	}
	for _, t := range strings.Fields(g) {
		count[t]--
	}
	for _, t := range strings.Fields(w) {
		if count[t] > 0 {
			return Viol{"text is missing", fmt.Sprintf("%s: %s", t, wordDiff(g, w))}
		}
	}
	for _, t := range strings.Fields(g) {
		if count[t] < 0 {
			for _, x := range e.excl {
				if x == t {
					return Viol{"excluded text appears", t + ": " + wordDiff(g, w)}
				}
			}
			return Viol{"text appears more than once", fmt.Sprintf("%s: %s", t, wordDiff(g, w))}
		}
	}
	return Viol{"text out of order", wordDiff(g, w)}
}

func checkMacros(x *Ctx, op *Op, got *OpResult, e *mexpect) []Viol {
	var v []Viol
	failAt := -1
	n := map[string]int{}
	modes := map[string]MacroSpec{}
	for _, m := range op.Cfg.Macros {
		modes[m.Name] = m
	}
	for i, c := range e.calls {
		n[c.Name]++
		if m := modes[c.Name]; m.Mode == "fail" && n[c.Name] == m.FailOn {
			failAt = i
			break
		}
	}
	want := e.calls
	if failAt >= 0 {
		want = want[:failAt+1]
		x.Probe("macro failed")
	}
	var gs, ws []string
	for _, c := range got.Macros {
		gs = append(gs, fmt.Sprintf("%s:%s:%s[%s]", c.Name, c.Kind, c.Value, c.Attrs))
		if c.Late {
			v = append(v, Viol{"macro run late", c.Name})
		}
		if c.Foreign {
			v = append(v, Viol{"macro of another conversion", fmt.Sprintf("%s %s", c.Name, c.Value)})
		}
	}
	for _, c := range want {
		ws = append(ws, fmt.Sprintf("%s:%s:%s[%s]", c.Name, c.Kind, c.Value, c.Attrs))
	}
	if g, w := strings.Join(gs, " "), strings.Join(ws, " "); g != w {
		v = append(v, Viol{"macro executions", wordDiff(g, w)})
	}
	if failAt >= 0 {
		switch {
		case got.Class == "ok":
			v = append(v, Viol{"macro failure ignored", "the conversion succeeded although macro " + e.calls[failAt].Name + " failed"})
		case got.Class != "error":
			v = append(v, Viol{"unexpected " + got.Class, clip(got.Panic, 600)})
		case !strings.Contains(got.Err, "macro failure "+e.calls[failAt].Name):
			v = append(v, Viol{"macro failure not in the error", clip(got.Err, 400)})
		case len(got.Out) > 0:
			v = append(v, Viol{"output despite a failed macro", clip(string(got.Out), 200)})
		}
		return v
	}
	if got.Class != "ok" {
		return append(v, Viol{"unexpected " + got.Class, clip(got.Err+got.Panic, 600)})
	}
	body, _ := bodyOf(string(got.Out), op.Cfg.HF)
	// (the outputs of block macros which follow each other are not separated)
	if words := plain(body); strings.ReplaceAll(words, " ", "") != strings.ReplaceAll(e.words, " ", "") {
		v = append(v, Viol{"macro output not in place", wordDiff(words, e.words)})
	}
	return v
}

// genMacroDoc draws a document of any kind with macros in place of words, so in all kinds of places
func genMacroDoc(r *Rng) *Scenario {
	op := Op{Kind: "convert", Cfg: genCfg(r)}
	var names []string
	for _, n := range []string{"hello", "chart", "calc"} {
		if len(names) == 0 || r.P(60) {
			op.Cfg.Macros = append(op.Cfg.Macros, MacroSpec{Name: n, Mode: r.Pick("", "template", "yield")})
			names = append(names, n)
		}
	}
	g := &DocGen{r: r, Macros: names, Heavy: true}
	op.Src = Text(g.Doc(r.R(1, 12)))
	if r.P(60) {
		k := r.N(len(op.Cfg.Macros))
		op.Cfg.Macros[k].Mode, op.Cfg.Macros[k].FailOn = "fail", r.R(1, 8)
	}
	return &Scenario{Kind: "macrodoc", Sched: genSched(r, len(op.Src)), Tasks: []TaskSpec{{Ops: []Op{op}}}}
}

// declared: the macro is in the value of an attribute (which is resolved where it is declared)
func declared(src, value string) bool {
	at := strings.Index(src, ":"+value+"[")
	return at >= 0 && strings.HasPrefix(src[strings.LastIndex(src[:at], "\n")+1:], ":")
}

func evalMacroDoc(x *Ctx, sc *Scenario) ([]Viol, error) {
	res, err := x.Run(sc)
	if err != nil {
		return nil, err
	}
	got, op := &res.Ops[0][0], &sc.Tasks[0].Ops[0]
	fail := ""
	n := map[string]int{}
	seen := map[string]int{}
	last, src := -1, string(op.Src)
	for i, c := range got.Macros {
		switch {
		case c.Late:
			return []Viol{{"macro run late", c.Name}}, nil
		case c.Foreign:
			return []Viol{{"macro of another conversion", c.Name + " " + c.Value}}, nil
		case fail != "":
			return []Viol{{"macro run after a failure", fmt.Sprintf("%s %s", c.Name, c.Value)}}, nil
		}
		n[c.Name]++
		for _, m := range op.Cfg.Macros {
			if m.Name == c.Name && m.Mode == "fail" && n[c.Name] == m.FailOn {
				fail = c.Name
			}
		}
		if strings.Count(src, ":"+c.Value+"[") == 1 && !declared(src, c.Value) {
			if seen[c.Value]++; seen[c.Value] > 1 {
				return []Viol{{"macro executions", fmt.Sprintf("execution %d is a second one of %s:%s", i, c.Name, c.Value)}}, nil
			}
			at := strings.Index(src, ":"+c.Value+"[")
			line := src[strings.LastIndex(src[:at], "\n")+1:]
			switch {
			case strings.HasPrefix(line, "="):
				// the titles of sections are rendered ahead, for the table of contents
				continue
			case strings.HasPrefix(line, ".") && (strings.Contains(src, "<<") || strings.Contains(src, "xref:")):
				continue // the title of a block may be rendered where a reference is
			case at < last && !strings.Contains(src, "footnote:"):
				return []Viol{{"macro executions", fmt.Sprintf("%s:%s comes before the one executed before it", c.Name, c.Value)}}, nil
			}
			last = at
		}
	}
	if fail != "" {
		x.Probe("macro failed somewhere")
		switch {
		case got.Class == "ok":
			return []Viol{{"macro failure ignored", "the conversion succeeded although macro " + fail + " failed"}}, nil
		case got.Class != "error":
			return []Viol{{"unexpected " + got.Class, clip(got.Panic, 600)}}, nil
		case !strings.Contains(got.Err, "macro failure "+fail):
			return []Viol{{"macro failure not in the error", clip(got.Err, 400)}}, nil
		case len(got.Out) > 0:
			return []Viol{{"output despite a failed macro", clip(string(got.Out), 200)}}, nil
		}
		return nil, nil
	}
	if got.Class != "ok" {
		return nil, nil
	}
	text := string(got.Out)
	for _, c := range got.Macros {
		w := c.Name + ":" + c.Value
		for _, m := range op.Cfg.Macros {
			if m.Name == c.Name && m.Mode == "template" {
				w = c.Name + "(" + c.Value + ")"
			}
		}
		if !strings.Contains(text, w) && !declared(src, c.Value) {
			return []Viol{{"macro output not in place", w}}, nil
		}
	}
	return nil, nil
}

// modelShrinks are smaller models
func modelShrinks(sc *Scenario) []*Scenario {
	var out []*Scenario
	m := &MModel{}
	if json.Unmarshal(sc.Expect, m) != nil {
		return nil
	}
	add := func(f func(c *Scenario, m *MModel)) {
		defer func() { _ = recover() }() // (a model which makes no sense is no candidate)
		c := clone(sc)
		n := &MModel{}
		_ = json.Unmarshal(sc.Expect, n)
		f(c, n)
		c.Expect = mustJSON(n)
		buildModel(c)
		out = append(out, c)
	}
	for t := range m.Docs {
		if len(m.Docs) > 1 {
			t := t
			add(func(c *Scenario, n *MModel) {
				c.Tasks = append(c.Tasks[:t], c.Tasks[t+1:]...)
				n.Docs = append(n.Docs[:t], n.Docs[t+1:]...)
			})
		}
		for o := range m.Docs[t] {
			t, o := t, o
			if len(m.Docs[t]) > 1 {
				add(func(c *Scenario, n *MModel) {
					c.Tasks[t].Ops = append(c.Tasks[t].Ops[:o], c.Tasks[t].Ops[o+1:]...)
					n.Docs[t] = append(n.Docs[t][:o], n.Docs[t][o+1:]...)
				})
			}
			d := &m.Docs[t][o]
			for _, l := range shrinkItems(d.Items) {
				l := l
				add(func(c *Scenario, n *MModel) { n.Docs[t][o].Items = l })
			}
			for _, l := range shrinkItems(d.Header) {
				l := l
				add(func(c *Scenario, n *MModel) { n.Docs[t][o].Header = l })
			}
			if len(d.Title) > 0 && len(d.Header) == 0 {
				add(func(c *Scenario, n *MModel) { n.Docs[t][o].Title, n.Docs[t][o].Author = nil, "" })
			}
			if d.Author != "" {
				add(func(c *Scenario, n *MModel) { n.Docs[t][o].Author = "" })
			}
			if !d.FromMem {
				add(func(c *Scenario, n *MModel) { n.Docs[t][o].FromMem = true })
			}
			op := &sc.Tasks[t].Ops[o]
			for k := range op.Cfg.Attrs {
				k := k
				add(func(c *Scenario, n *MModel) {
					a := &c.Tasks[t].Ops[o].Cfg
					a.Attrs = append(a.Attrs[:k], a.Attrs[k+1:]...)
				})
			}
			for k := range op.Cfg.Macros {
				k := k
				add(func(c *Scenario, n *MModel) {
					a := &c.Tasks[t].Ops[o].Cfg
					a.Macros = append(a.Macros[:k], a.Macros[k+1:]...)
				})
			}
			if op.Cfg.HF {
				add(func(c *Scenario, n *MModel) { c.Tasks[t].Ops[o].Cfg.HF = false })
			}
			if op.R != (ReaderSpec{}) {
				add(func(c *Scenario, n *MModel) { c.Tasks[t].Ops[o].R = ReaderSpec{} })
			}
		}
	}
	if sc.ShortP > 0 {
		add(func(c *Scenario, n *MModel) { c.ShortP = 0 })
	}
	return out
}

func cloneItems(l []MItem) []MItem {
	var c []MItem
	b := mustJSON(l)
	_ = json.Unmarshal(b, &c)
	return c
}

// shrinkItems are smaller lists of items
func shrinkItems(l []MItem) [][]MItem {
	var out [][]MItem
	n := len(l)
	most := 10 + (10<<20)/(1+len(mustJSON(l))) // (large ones are halved first)
	for k := n / 2; k > 1; k /= 2 {
		for i := 0; i < n; i += k {
			j := i + k
			if j > n {
				j = n
			}
			c := cloneItems(l)
			out = append(out, append(c[:i:i], c[j:]...))
			if len(out) > most {
				return out
			}
		}
	}
	for i := range l {
		if len(out) > most {
			return out
		}
		c := cloneItems(l)
		out = append(out, append(c[:i:i], c[i+1:]...))
		if len(l[i].Items) > 0 && l[i].K != "list" && l[i].K != "verb" && l[i].K != "" {
			c := cloneItems(l)
			k := append(c[:i:i], l[i].Items...)
			out = append(out, append(k, c[i+1:]...))
		}
		for _, s := range shrinkItems(l[i].Items) {
			if len(out) > most {
				return out
			}
			c := cloneItems(l)
			c[i].Items = s
			out = append(out, c)
		}
		if len(l[i].T) > 0 && l[i].K != "sec" && l[i].K != "" {
			c := cloneItems(l)
			c[i].T = nil
			out = append(out, c)
		}
		if l[i].K == "para" && l[i].C != "" {
			c := cloneItems(l)
			c[i].C = ""
			out = append(out, c)
		}
		if l[i].N != "" && l[i].K == "sec" {
			c := cloneItems(l)
			c[i].N = ""
			out = append(out, c)
		}
		if len(l[i].T) > 1 {
			for k := 1; k < len(l[i].T); k++ {
				c := cloneItems(l)
				c[i].T = append(c[i].T[:k], c[i].T[k+1:]...)
				out = append(out, c)
			}
		}
		if len(l[i].P) > 1 && l[i].K != "table" {
			for k := range l[i].P {
				c := cloneItems(l)
				c[i].P = append(c[i].P[:k], c[i].P[k+1:]...)
				out = append(out, c)
			}
		}
		if least := l[i].L * map[bool]int{true: 2, false: 1}[l[i].C == "footer" || l[i].C == "implicit"]; l[i].K == "table" && len(l[i].P) > least && l[i].L > 0 {
			c := cloneItems(l)
			c[i].P = c[i].P[:len(c[i].P)-l[i].L]
			out = append(out, c)
			if len(l[i].P)%l[i].L != 0 {
				c = cloneItems(l)
				c[i].P = c[i].P[:len(c[i].P)/l[i].L*l[i].L]
				out = append(out, c)
			}
		}
		for k := range l[i].P {
			for q := range l[i].P[k] {
				if q > 0 {
					c := cloneItems(l)
					c[i].P[k] = append(c[i].P[k][:q], c[i].P[k][q+1:]...)
					out = append(out, c)
				}
				if l[i].P[k][q].W != "" && l[i].P[k][q].K != "fn" {
					c := cloneItems(l)
					c[i].P[k][q].W = ""
					out = append(out, c)
				}
			}
		}
		if l[i].K == "decl" && strings.Contains(l[i].V, " ") {
			c := cloneItems(l)
			c[i].V = strings.Fields(l[i].V)[0]
			out = append(out, c)
		}
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C02", Quick: 6000, Thorough: 60000,
		Gen: func(r *Rng, i int) *Scenario {
			if i%5 == 4 {
				return genArtefact(r)
			}
			return genModel(r, "C02")
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			if sc.Kind == "artefact" {
				return evalArtefact(x, sc)
			}
			return evalModel(x, sc, "C02")
		},
		Shrink: func(sc *Scenario) []*Scenario {
			if sc.Kind == "artefact" {
				return genericShrink(sc)
			}
			return modelShrinks(sc)
		},
		Rule: "Each case draws documents from a model of their structure (sections, paragraphs of all styles, nested lists with attached blocks, delimited blocks, tables, titles, comments, conditional regions, includes with selections, footnotes) in which every word is unique, computes their sources and the order in which the words have to appear, converts them under a random schedule with the source delivered in random pieces, and compares the words of the output with the model's. One case in five is an arbitrary document (of the generator with all elements), in whose output no values of the converter itself may show (placeholders, addresses, Go values).",
	})
	register(&Prop{
		ID: "C03", Quick: 7000, Thorough: 60000,
		Gen:    func(r *Rng, i int) *Scenario { return genModel(r, "C03") },
		Eval:   func(x *Ctx, sc *Scenario) ([]Viol, error) { return evalModel(x, sc, "C03") },
		Shrink: modelShrinks,
		Rule:   "Each case draws documents with declarations, resets and references of attributes, counters, footnotes, captions, numbered and unnumbered sections, ids, cross references, conditions and includes, at any place, and attributes given through the API; a sequential model computes the value of each in document order; the output under a random schedule has to show exactly these values.",
	})
	register(&Prop{
		ID: "C20", Quick: 5000, Thorough: 60000,
		Gen: func(r *Rng, i int) *Scenario {
			if r.P(20) {
				return genMacroDoc(r)
			}
			return genModel(r, "C20")
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			if sc.Kind == "macrodoc" {
				return evalMacroDoc(x, sc)
			}
			return evalModel(x, sc, "C20")
		},
		Shrink: func(sc *Scenario) []*Scenario {
			if sc.Kind == "macrodoc" {
				return genericShrink(sc)
			}
			return modelShrinks(sc)
		},
		Rule: "Each case draws documents with inline and block user macros at any place and a configuration which defines some of them, possibly with one that fails at some execution; the recorded executions and the output are compared with the model's list of occurrences in document order.",
	})
}
