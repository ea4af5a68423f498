//go:build go1.21

package main

import (
	"fmt"
	"strings"
)

// C02, second part: what the output has beyond the text of the source are elements of the backend, and never values which the
// converter has for its own use (placeholders of substitutions, addresses, Go values, verbs of formats)

var artefacts = []string{"\ufffd", "<nil>", "&lt;nil&gt;", "<no value>", "&lt;no value&gt;", "%!", "[0xc", "&{", "&amp;{", "map[", "[]interface", "types."}

func genArtefact(r *Rng) *Scenario {
	op := Op{Kind: "convert", Cfg: genCfg(r), R: genReader(r, 2000)}
	g := &DocGen{r: r}
	if r.P(50) {
		op.Cfg.HF = true
	}
	op.Src = Text(g.Doc(r.R(1, 30)))
	return &Scenario{Kind: "artefact", Sched: genSched(r, len(op.Src)), Tasks: []TaskSpec{{Ops: []Op{op}}}}
}

func evalArtefact(x *Ctx, sc *Scenario) ([]Viol, error) {
	res, err := x.Run(sc)
	if err != nil {
		return nil, err
	}
	for t := range sc.Tasks {
		for o := range sc.Tasks[t].Ops {
			op := &sc.Tasks[t].Ops[o]
			got := &res.Ops[t][o]
			if got.Class != "ok" || errorLogged(got) {
				continue
			}
			in := string(op.Src) + fmt.Sprint(op.Cfg.Attrs)
			for _, f := range sc.Files {
				in += string(f.Data)
			}
			x.Probe("documents searched for internal values")
			if strings.ToValidUTF8(in, "\ufffd") != in { // (bytes which are not text are shown as such)
				in += "\ufffd"
			}
			if strings.HasPrefix(string(op.Src), "---") {
				in += "map[ <nil>" // (how a structured value of the front matter is shown is not specified)
			}
			out := string(got.Out)
			for _, a := range artefacts {
				if i := strings.Index(out, a); i >= 0 && !strings.Contains(in, a) && !strings.Contains(in, strings.NewReplacer("&lt;", "<", "&gt;", ">", "&amp;", "&").Replace(a)) {
					return []Viol{{"internal value", fmt.Sprintf("%q is not of the source: ...%s...", a, cutAround(out, i, 60))}}, nil
				}
			}
		}
	}
	return nil, nil
}

func cutAround(s string, i, n int) string {
	from, to := i-n, i+n
	if from < 0 {
		from = 0
	}
	if to > len(s) {
		to = len(s)
	}
	return s[from:to]
}
