//go:build go1.21

package main

import (
	"fmt"
	"html"
	"regexp"
	"strings"
)

// C34: what the stages of a conversion generate independently of each other - ids of sections, entries of the table of contents,
// footnotes and the references to them - fits together in the output, whatever the schedule

var (
	idAttrRx    = regexp.MustCompile(`<[a-zA-Z][^<>]*?\sid="([^"]*)"`)
	hrefRx      = regexp.MustCompile(`<a\s[^<>]*?href="#([^"]*)"`)
	noteRefRx   = regexp.MustCompile(`<sup class="footnote(?:ref)?"[^>]*>\[<a[^>]*?href="#([^"]*)"`)
	noteBackRx  = regexp.MustCompile(`(?s)<div class="footnote" id="([^"]*)">\s*<a href="#([^"]*)">`)
	explicitRx  = regexp.MustCompile(`\[\[([^\],]+)|#([^\s#\].,%\[]+)|id="?([^\s\].,%"]+)`)
	headIDRx    = regexp.MustCompile(`<h[1-6] id="([^"]*)"`)
	xrefTitleRx = regexp.MustCompile(`<<|xref:`)
)

func genLinks(r *Rng) *Scenario {
	if r.P(70) {
		sc := genModel(r, "C03")
		sc.Kind = "links"
		for t := range sc.Tasks {
			for o := range sc.Tasks[t].Ops {
				c := &sc.Tasks[t].Ops[o].Cfg
				c.HF = true
				if r.P(50) {
					c.Attrs = append(c.Attrs, Attr{"toc", ""})
				}
			}
		}
		buildModel(sc)
		return sc
	}
	op := Op{Kind: "convert", Cfg: genCfg(r), R: genReader(r, 2000)}
	op.Cfg.HF = true
	if r.P(40) {
		op.Cfg.Attrs = append(op.Cfg.Attrs, Attr{"toc", ""}, Attr{"toclevels", r.Pick("1", "2", "5")})
		op.Src = Text(genManySections(r))
		return &Scenario{Kind: "linkdoc", Sched: genSched(r, len(op.Src)), Tasks: []TaskSpec{{Ops: []Op{op}}}}
	}
	op.Cfg.Attrs = append(op.Cfg.Attrs, Attr{"toc", ""})
	if r.P(50) {
		op.Cfg.Attrs = append(op.Cfg.Attrs, Attr{"toclevels", r.Pick("1", "3", "5")})
	}
	g := &DocGen{r: r}
	op.Src = Text(g.Doc(r.R(1, 30)))
	return &Scenario{Kind: "linkdoc", Sched: genSched(r, len(op.Src)), Tasks: []TaskSpec{{Ops: []Op{op}}}}
}

// genManySections writes a document like a list of changes: many sections with the same few titles, with references by title to them, and footnotes
func genManySections(r *Rng) string {
	titles := []string{"Added", "Fixed", "Known issues", "KNOWN issues", "Élan vital", "élan Vital", "Ωmega Tau", "Added 2", "Fixed_3", "v1.2 -- Final", "Added *bold*", "Straße Ǆ", "İstanbul", "Q & A", "-", "2", "Added image:x.png[]", "C{plus}{plus}", "`code` it", "https://example.org[Site]"}
	var pool []string
	for n := r.R(1, 6); n > 0; n-- {
		pool = append(pool, titles[r.N(len(titles))])
	}
	b := &strings.Builder{}
	if r.P(50) {
		b.WriteString("= Changes\n\n")
	}
	level, note := 0, 0
	for n := r.R(2, 90); n > 0; n-- {
		level = r.R(1, min(level+1, 4))
		b.WriteString(strings.Repeat("=", level+1) + " " + pool[r.N(len(pool))])
		if r.P(3) {
			b.WriteString(" footnote:[in a title]")
		}
		b.WriteString("\n\n")
		for k := r.R(0, 2); k > 0; k-- {
			b.WriteString("text")
			if r.P(30) {
				note++
				b.WriteString(r.Pick(" footnote:[a note]", fmt.Sprintf(" footnote:n%d[a note]", note), fmt.Sprintf(" footnote:n%d[]", r.R(1, note))))
			}
			if r.P(30) {
				b.WriteString(" <<" + pool[r.N(len(pool))] + ">>")
			}
			b.WriteString("\n\n")
		}
	}
	return b.String()
}

func evalLinks(x *Ctx, sc *Scenario) ([]Viol, error) {
	var exp [][]mexpect
	if sc.Kind == "links" {
		exp = buildModel(sc)
	}
	res, err := x.Run(sc)
	if err != nil {
		return nil, err
	}
	if v := worldViols(res); len(v) > 0 && sc.Kind == "links" {
		return v, nil
	}
	for t := range sc.Tasks {
		for o := range sc.Tasks[t].Ops {
			if exp != nil && exp[t][o].invalid != "" {
				x.Probe("unspecified: " + exp[t][o].invalid)
				continue
			}
			got := &res.Ops[t][o]
			if got.Class != "ok" || errorLogged(got) {
				continue
			}
			var v []Viol
			if exp != nil {
				v = checkLinks(x, string(got.Out), exp[t][o].src, exp[t][o].files, &exp[t][o])
			} else {
				v = checkLinks(x, string(got.Out), string(sc.Tasks[t].Ops[o].Src), nil, nil)
			}
			if len(v) > 0 {
				return v, nil
			}
		}
	}
	return nil, nil
}

func checkLinks(x *Ctx, out, src string, files []File, e *mexpect) []Viol {
	explicit := map[string]int{}
	for _, s := range append([]File{{Data: Text(src)}}, files...) {
		for _, m := range explicitRx.FindAllStringSubmatch(string(s.Data), -1) {
			explicit[m[1]+m[2]+m[3]]++
		}
	}
	ids := map[string]int{}
	for _, m := range idAttrRx.FindAllStringSubmatch(out, -1) {
		ids[html.UnescapeString(m[1])]++
	}
	body, toc := bodyOf(out, true)
	links := 0
	check := func(what, id string) []Viol {
		links++
		if id = html.UnescapeString(id); ids[id] != 1 && (ids[id] == 0 || explicit[id] == 0) {
			return []Viol{{"link of " + what, fmt.Sprintf("#%s: there are %d elements with this id", id, ids[id])}}
		}
		return nil
	}
	// the entries of the table of contents
	for _, m := range tocLnkRx.FindAllStringSubmatch(toc, -1) {
		if v := check("the table of contents", m[1]); v != nil {
			return v
		}
	}
	// footnotes
	if e == nil && strings.Contains(src, "footnote:") && (xrefTitleRx.MatchString(src) || len(toc) > 0 && strings.Contains(toc, "footnote")) {
		x.Probe("footnotes in titles which are rendered again")
	} else {
		for _, m := range noteRefRx.FindAllStringSubmatch(body, -1) {
			if v := check("a reference to a footnote", m[1]); v != nil {
				return v
			}
		}
		for _, m := range noteBackRx.FindAllStringSubmatch(body, -1) {
			if v := check("a footnote", m[2]); v != nil {
				return v
			}
		}
	}
	// sections
	for _, m := range headIDRx.FindAllStringSubmatch(body, -1) {
		id := html.UnescapeString(m[1])
		if ids[id] != 1 && explicit[id] == 0 {
			return []Viol{{"id of a section", fmt.Sprintf("%s: there are %d elements with this id", id, ids[id])}}
		}
	}
	if e != nil {
		for id, n := range ids {
			if n > 1 && explicit[id] < 2 {
				return []Viol{{"id", fmt.Sprintf("%s: there are %d elements with this id", id, n)}}
			}
		}
		known := map[string]bool{}
		for id := range e.known {
			known[strings.ToLower(id)] = true
		}
		for _, h := range e.heads {
			known[h.id] = true
		}
		for _, m := range hrefRx.FindAllStringSubmatch(body, -1) {
			if known[strings.ToLower(html.UnescapeString(m[1]))] {
				if v := check("a cross reference", m[1]); v != nil {
					return v
				}
			}
		}
	}
	// references by title
	folded := map[string]string{}
	for id := range ids {
		folded[strings.ToLower(id)] = id
	}
	if e == nil && !strings.Contains(src, "idprefix") && !strings.Contains(src, "idseparator") && len(explicit) == 0 {
		for _, m := range hrefRx.FindAllStringSubmatch(body, -1) {
			href := html.UnescapeString(m[1])
			if id, ok := folded[strings.ToLower(href)]; ok && ids[href] == 0 {
				return []Viol{{"link of a cross reference", fmt.Sprintf("#%s: there is no element with this id, but with %s", href, id)}}
			}
		}
	}
	if links > 0 {
		x.Probe("documents with links compared")
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C34", Quick: 5000, Thorough: 60000,
		Gen:  func(r *Rng, i int) *Scenario { return genLinks(r) },
		Eval: evalLinks,
		Shrink: func(sc *Scenario) []*Scenario {
			if sc.Kind == "linkdoc" {
				return genericShrink(sc)
			}
			return modelShrinks(sc)
		},
		Rule: "Each case draws documents with repeated section titles, changing prefixes and separators of ids, footnotes at all places, includes, conditions, titled blocks and cross references (from the model of C03, or from the generator of arbitrary documents) and converts them with a table of contents under a random schedule; in the output, the target of each entry of the table of contents, reference to a footnote, way back from a footnote and cross reference to an id of the document has to exist exactly once, as do the ids of the sections.",
	})
}
