//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/bytesparadise/libasciidoc/verifsim/sim"
	"github.com/bytesparadise/libasciidoc/verifsim/simos"
)

// genSched draws a schedule; size is a rough number of bytes of input, to keep fine grained schedules to small inputs
func genSched(r *Rng, size int) sim.Sched {
	s := sim.Sched{Seed: r.U()}
	switch r.W(40, 25, 12, 10, 6, 7) {
	case 0:
		s.Strategy = sim.StratRandom
		s.Quantum = []int64{3, 10, 40, 150, 600, 3000, 20000}[r.N(7)]
		s.HotP = []int{0, 50, 200, 500}[r.N(4)]
	case 1:
		s.Strategy = sim.StratPCT
		s.Depth = r.R(1, 8)
		s.Horizon = []int64{500, 3000, 20000, 100000, 600000}[r.N(5)]
		s.HotP = []int{0, 0, 20}[r.N(3)]
	case 2:
		s.Strategy = sim.StratLockstep
		s.Quantum = []int64{1, 2, 5, 17, 60, 300}[r.N(6)]
	case 3:
		s.Strategy = sim.StratStarve
		s.Victim = r.N(12)
		s.Quantum = []int64{20, 200, 2000}[r.N(3)]
		s.HotP = []int{0, 100}[r.N(2)]
	case 4:
		s.Strategy = sim.StratLIFO
	case 5:
		s.Strategy = sim.StratFIFO
	}
	if size > 2500 && s.Quantum > 0 && s.Quantum < 15 {
		s.Quantum = 15
	}
	s.Maps = []string{"", "", "", "reversed", "sorted"}[r.N(5)]
	s.PoolNew = []int{0, 0, 100, 500, 1000}[r.N(5)]
	s.Stall = []int{0, 20, 200, 1000}[s.Seed>>20&3]
	return s
}

// genCfg draws a configuration
func genCfg(r *Rng) Cfg {
	c := Cfg{Backend: r.Pick("html5", "html5", "html5", "xhtml5", "")}
	if c.Backend == "" {
		c.Backend = "html5"
	}
	c.HF = r.P(50)
	if r.P(25) {
		for k := r.N(r.Pick2(2, 5)); k >= 0; k-- {
			c.CSS = append(c.CSS, r.Pick("/a.css", "/b.css", "c.css", "../d.css", "https://example.com/e.css?a=b&c", "/a.css", "", " f.css"))
		}
	}
	if r.P(30) {
		c.LastUpdated = 1500000000 + int64(r.N(1000000))
	}
	for _, a := range []Attr{{"at1", "api value"}, {"at2", ""}, {"sectnums", ""}, {"toc", ""}, {"idprefix", "api_"}, {"icons", "font"}, {"imagesdir", "/img"}, {"figure-caption", "Fig"}, {"cnta", "5"}, {"source-highlighter", "chroma"}, {"experimental", ""}, {"at3", "*bold*"}, {"table-caption", "Tbl"}, {"example-caption", "Ex"}} {
		if r.P(9) {
			c.Attrs = append(c.Attrs, a)
		}
	}
	for _, a := range []Attr{{"at1", true}, {"at2", 7}, {"at3", nil}, {"toc", true}, {"sectnums", true}, {"cntb", 4}, {"imagesdir", nil}, {"at4", false}, {"data-uri", true}} {
		if r.P(2) {
			c.Attrs = append(c.Attrs, a)
		}
	}
	return c
}

func genMacros(r *Rng) ([]MacroSpec, []string) {
	var m []MacroSpec
	var names []string
	for _, n := range []string{"hello", "chart", "calc"} {
		if r.P(60) {
			m = append(m, MacroSpec{Name: n, Mode: r.Pick("", "template", "yield")})
			names = append(names, n)
		}
	}
	return m, names
}

// genConvert draws a conversion from memory
func genConvert(r *Rng) Op {
	op := Op{Kind: "convert", Cfg: genCfg(r)}
	var names []string
	if r.P(20) {
		op.Cfg.Macros, names = genMacros(r)
	}
	if r.P(6) {
		op.Src = Text(Manpage(r))
		if r.P(20) {
			op.Cfg.Attrs = append(op.Cfg.Attrs, Attr{"doctype", "manpage"})
		}
	} else {
		op.Src = Text(RandomDoc(r, names, nil))
	}
	if r.P(5) {
		op.Src += Text(manyOf(r))
	}
	return op
}

// manyOf is a block with many parts of the same kind, or many blocks
func manyOf(r *Rng) string {
	b := &strings.Builder{}
	n := r.R(9, 40+r.N(2)*100)
	kind := r.W(3, 1, 1, 2, 2, 2, 2, 1, 1, 1, 1, 1)
	switch kind {
	case 0:
		b.WriteString(r.Pick("", "[%header]\n", "[%header%footer,cols=2*]\n", "[cols=\"1,a\"]\n") + "|===\n")
	case 1:
		b.WriteString("----\n")
	case 2:
		b.WriteString(":cnta: 1\n\n")
	}
	for i := 1; i <= n; i++ {
		switch kind {
		case 0:
			fmt.Fprintf(b, "|row %d |*cell* %d\n", i, i)
		case 1:
			fmt.Fprintf(b, "line %d <%d>\n", i, i+1)
		case 2:
			fmt.Fprintf(b, "item {counter:many} of {cnta}\n")
		case 3:
			fmt.Fprintf(b, "%s item %d\n", []string{"*", "**", "***"}[i*i%3], i)
		case 4:
			fmt.Fprintf(b, ". item %d\n", i)
		case 5:
			fmt.Fprintf(b, "term %d:: text %d\n", i, i)
		case 6:
			fmt.Fprintf(b, "== Section %d\n\ntext\n\n", i%17)
		case 7:
			fmt.Fprintf(b, "text footnote:[note %d] ", i)
		case 8:
			fmt.Fprintf(b, ":name%d: value {name%d}\n", i, i-1)
		case 9:
			fmt.Fprintf(b, ".Title %d\n[#id%d]\n====\nparagraph of <<id%d>>\n====\n\n", i, i, n-i+1)
		case 10:
			fmt.Fprintf(b, "paragraph _%d_ with some text\n\n", i)
		default:
			fmt.Fprintf(b, "<%d> callout %d\n", i, i)
		}
	}
	switch kind {
	case 0:
		b.WriteString("|===\n")
	case 1:
		b.WriteString("----\n")
	case 8:
		fmt.Fprintf(b, "\n{name%d} and {name%d}\n", n, n/2)
	}
	return "\n\n" + b.String()
}

// genFiles draws a tree of documents which include each other without cycles; the first one is the main document
func genFiles(r *Rng, root string, n int) []File {
	dirs := []string{"", "a/", "a/b/", "c/"}
	names := make([]string, n)
	for i := range names {
		ext := ".adoc"
		if i > 0 {
			ext = r.Pick(".adoc", ".adoc", ".asciidoc", ".txt", ".go")
		}
		d := ""
		if i > 0 {
			d = dirs[r.N(len(dirs))]
		}
		names[i] = fmt.Sprintf("%sf%d%s", d, i, ext)
	}
	var files []File
	for i := n - 1; i >= 0; i-- {
		var incl []string
		for j := i + 1; j < n; j++ {
			incl = append(incl, relPath(names[i], names[j]))
		}
		g := &DocGen{r: r, noSect: i > 0 && r.P(50)}
		var b strings.Builder
		if i == 0 {
			b.WriteString(g.Header())
		}
		k := r.R(2, 9)
		for ; k > 0; k-- {
			if len(incl) > 0 && r.P(35) {
				b.WriteString("include::" + incl[r.N(len(incl))] + "[" + r.Pick("", "", "", "leveloffset=+1", "lines=1..4", "tags=t1") + "]\n\n")
				continue
			}
			if i > 0 && r.P(15) {
				b.WriteString("// tag::t1[]\n" + g.lines(1, 2) + "\n// end::t1[]\n\n")
				continue
			}
			if i > 0 && strings.HasSuffix(names[i], ".go") {
				b.WriteString(g.code() + "\n")
				continue
			}
			b.WriteString(g.Block() + "\n")
		}
		files = append(files, File{Path: root + "/" + names[i], Data: Text(b.String()), Mtime: (1600000000 + int64(r.N(1000000))) * 1e9})
	}
	// main document first
	for i, j := 0, len(files)-1; i < j; i, j = i+1, j-1 {
		files[i], files[j] = files[j], files[i]
	}
	return files
}

// withImages lets the first of the documents, now and then, embed images
func withImages(r *Rng, files []File) []File {
	if !r.P(15) || len(files) == 0 {
		return files
	}
	main := &files[0]
	dir := main.Path[:strings.LastIndex(main.Path, "/")+1]
	var b strings.Builder
	for k := r.R(1, 3); k > 0; k-- {
		name := fmt.Sprintf("img/p%d.%s", k, r.Pick("png", "svg", "jpg"))
		if r.P(80) {
			data := make([]byte, r.Pick2(r.N(40), r.N(9000)))
			for i := range data {
				data[i] = byte(r.N(256))
			}
			files = append(files, File{Path: dir + name, Data: Text(data), Mtime: 1500000000e9})
			main = &files[0]
		}
		b.WriteString(r.Pick("image::"+name+"[]\n\n", "."+r.Pick("A", "B")+" title\nimage::"+name+"[alt]\n\n", "text image:"+name+"[] text\n\n"))
	}
	if r.P(50) {
		main.Data = Text(":data-uri:\n" + b.String() + string(main.Data))
	} else {
		main.Data += Text("\n\n:data-uri:\n\n" + b.String())
	}
	return files
}

func relPath(from, to string) string {
	fd := strings.Split(from, "/")
	fd = fd[:len(fd)-1]
	td := strings.Split(to, "/")
	i := 0
	for i < len(fd) && i < len(td)-1 && fd[i] == td[i] {
		i++
	}
	return strings.Repeat("../", len(fd)-i) + strings.Join(td[i:], "/")
}

// world checks what holds for every run: the process survives, everything stops
func worldViols(res *RunResult) []Viol {
	var v []Viol
	if res.Crash != "" {
		v = append(v, Viol{"crash", "the process crashed: " + clip(res.Crash, 500) + " " + clip(res.Stack, 1500)})
	}
	if res.Abort != "" {
		v = append(v, Viol{"does not terminate", res.Abort})
	}
	return v
}

// outcomeOf folds what happened to the whole run into the outcome of an operation
func outcomeOf(res *RunResult, o *OpResult) *OpResult {
	c := *o
	if c.Class == "pending" || c.Class == "" {
		switch {
		case res.Crash != "":
			c.Class, c.Panic = "crash", res.Crash
		case res.Abort != "":
			c.Class, c.Panic = "abort", res.Abort
		}
	}
	return &c
}

// compareAll compares every conversion of the run with the same conversion alone
func compareAll(x *Ctx, sc *Scenario, res *RunResult, kind string) ([]Viol, error) {
	var v []Viol
	for i := range sc.Tasks {
		for j := range sc.Tasks[i].Ops {
			op := sc.Tasks[i].Ops[j]
			if op.Kind != "convert" && op.Kind != "convertfile" {
				continue
			}
			got := outcomeOf(res, &res.Ops[i][j])
			files := sc.Files
			if got.Files != nil {
				files = got.Files
			}
			want, _, err := x.Ref(sc, op, files)
			if err != nil {
				return nil, err
			}
			if d := diffOutcome(got, want, true); d != "" {
				v = append(v, Viol{kind, fmt.Sprintf("operation %d of task %d: %s", j, i, d)})
			}
		}
	}
	return v, nil
}

func mustJSON(v interface{}) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

var _ = simos.Event{}
