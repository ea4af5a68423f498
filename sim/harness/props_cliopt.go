//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"

	"github.com/bytesparadise/libasciidoc/verifsim/simos"
)

// cliOpt is an option of the command and what it means
type cliOpt struct {
	Kind string   `json:"kind"` // attr, unset, css, backend, s, log
	Name string   `json:"name,omitempty"`
	Val  string   `json:"val,omitempty"`
	Args []string `json:"args"`
}

// optSpec is an invocation whose meaning is known
type optSpec struct {
	Opts    []cliOpt `json:"opts"`
	Out     string   `json:"out,omitempty"`
	Sources []string `json:"sources"`
	Last    int      `json:"last,omitempty"` // this number of options follow the sources
}

func (s optSpec) args() []string {
	var a []string
	n := len(s.Opts) - s.Last
	for i, o := range s.Opts {
		if i == n {
			a = append(a, s.Sources...)
		}
		a = append(a, o.Args...)
	}
	if s.Last == 0 {
		if s.Out != "" {
			a = append(a, "-o", s.Out)
		}
		return append(a, s.Sources...)
	}
	if s.Out != "" {
		a = append(a, "--out-file="+s.Out)
	}
	return a
}

// cfg is the configuration which the options describe
func (s optSpec) cfg(source string) Cfg {
	c := Cfg{Filename: source, Backend: "html5", HF: true}
	set := func(n string, v interface{}) {
		for i := range c.Attrs {
			if c.Attrs[i].K == n {
				c.Attrs[i].V = v
				return
			}
		}
		c.Attrs = append(c.Attrs, Attr{n, v})
	}
	for _, o := range s.Opts {
		switch o.Kind {
		case "attr":
			set(o.Name, o.Val)
		case "unset":
			set(o.Name, nil)
		case "css":
			c.CSS = append(c.CSS, o.Val)
		case "backend":
			c.Backend = o.Val
		case "s":
			c.HF = false
		}
	}
	return c
}

var optAttrs = []string{"at1", "at2", "at3", "at1", "at2", "my-attr", "toc", "sectnums", "idprefix", "idseparator", "figure-caption", "table-caption", "example-caption", "imagesdir", "icons", "toclevels", "toc-title", "author", "version-label", "nofooter", "hardbreaks", "doctype", "source-highlighter", "data-uri", "chroma-class-prefix", "cnta"}

func genOpt(r *Rng) cliOpt {
	two := func(short, long, v string) []string {
		switch r.N(4) {
		case 0:
			return []string{"--" + long + "=" + v}
		case 1:
			return []string{"--" + long, v}
		case 2:
			if v != "" && v[0] != '=' { // (-a=x is read as `x`)
				return []string{"-" + short + v}
			}
		}
		return []string{"-" + short, v}
	}
	switch r.W(60, 12, 12, 10, 6) {
	case 0:
		n := optAttrs[r.N(len(optAttrs))]
		switch r.W(14, 16, 8, 62) {
		case 0:
			return cliOpt{Kind: "attr", Name: n, Args: two("a", "attribute", n)}
		case 1:
			return cliOpt{Kind: "unset", Name: n, Args: two("a", "attribute", n+"!")}
		case 2:
			return cliOpt{Kind: "attr", Name: n, Args: two("a", "attribute", n+"=")}
		}
		v := r.Pick("cli", "a=b=c", "=", "x=", "two words", " padded ", "a,b", "what!", "!", "{at2}", "a & b <c>", "\u00e9t\u00e9", "\"q\"", "'", "1", "5", "-", "--x", "a\tb", "font", "img", "macro", "book", "https://example.org/?a=1&b=2")
		return cliOpt{Kind: "attr", Name: n, Val: v, Args: two("a", "attribute", n+"="+v)}
	case 1:
		v := r.Pick("/style.css", "a.css", "a.css,b.css", "https://example.org/s.css?v=1", "b c.css")
		if r.P(50) {
			return cliOpt{Kind: "css", Val: v, Args: []string{"--css", v}}
		}
		return cliOpt{Kind: "css", Val: v, Args: []string{"--css=" + v}}
	case 2:
		v := r.Pick("html5", "xhtml5", "html", "xhtml")
		return cliOpt{Kind: "backend", Val: v, Args: two("b", "backend", v)}
	case 3:
		return cliOpt{Kind: "s", Args: []string{r.Pick("-s", "--no-header-footer")}}
	}
	return cliOpt{Kind: "log", Args: []string{"--log", r.Pick("error", "warning", "fatal", "panic", "warn")}}
}

// probes shows the attributes of the command line
func probes(r *Rng, o []cliOpt) string {
	var b strings.Builder
	if r.P(70) {
		b.WriteString("= Title\n")
		if r.P(40) {
			b.WriteString("Jane Doe <jane@example.org>\nv1.0\n")
		}
		for _, a := range o {
			if a.Name != "" && r.P(40) {
				b.WriteString(r.Pick(":"+a.Name+": doc\n", ":"+a.Name+"!:\n", ":"+a.Name+":\n", ":!"+a.Name+":\n"))
			}
		}
	}
	b.WriteString("\n== Section {at1}\n\n.figure\nimage::a.png[]\n\n.table\n|===\n|x\n|===\n\n")
	for _, a := range o {
		if a.Name == "" {
			continue
		}
		b.WriteString("p {" + a.Name + "} {my-attr}\n\n")
		if r.P(50) {
			b.WriteString("ifdef::" + a.Name + "[]\n" + a.Name + " set\n\nendif::[]\nifndef::" + a.Name + "[]\n" + a.Name + " not set\n\nendif::[]\n")
		}
		if r.P(30) {
			b.WriteString(":" + a.Name + ": later\n\n{" + a.Name + "}\n\n:" + a.Name + "!:\n\n{" + a.Name + "}\n\n=== Section\n\n")
		}
		if r.P(20) {
			b.WriteString("ifeval::[\"{" + a.Name + "}\" == \"" + r.Pick("cli", "doc", "later", "1") + "\"]\nequal\n\nendif::[]\n")
		}
		if r.P(15) {
			b.WriteString("* {" + a.Name + "}\n+\n----\n{" + a.Name + "}\n----\n\n[subs=attributes]\n----\n{" + a.Name + "}\n----\n\n")
		}
	}
	if r.P(50) {
		b.WriteString("[source,go]\n----\nfunc main() {}\n----\n\nicon:tags[]\n\nNOTE: note\n\n")
	}
	if r.P(30) {
		b.WriteString(stateful(r))
	}
	return b.String()
}

func init() {
	register(&Prop{
		ID: "C24", Quick: 3000, Thorough: 60000,
		Rule: "A case is one invocation of the command with options in all their forms (attributes which are set, unset, given twice, with values that contain '=' and other special characters; style sheets, backends, no header and footer, in front of or behind the sources), 1 to 3 source files, to files or to the standard output, under a seeded schedule, with short reads and sometimes a file which cannot be read; what is written for each source has to be what the library gives for this file with the configuration that the options describe.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{Cwd: "/w"}
			spec := optSpec{}
			for k := r.R(0, 7); k > 0; k-- {
				o := genOpt(r)
				spec.Opts = append(spec.Opts, o)
				if o.Name != "" && r.P(15) { // the same one again
					o2 := genOpt(r)
					for o2.Name == "" {
						o2 = genOpt(r)
					}
					v := r.Pick("again", "=", "")
					spec.Opts = append(spec.Opts, cliOpt{Kind: "attr", Name: o.Name, Val: v, Args: []string{"-a", o.Name + "=" + v}})
				}
			}
			if r.P(25) {
				spec.Last = r.N(len(spec.Opts) + 1)
			}
			for k := r.W(0, 60, 25, 15); k > 0; k-- {
				p := fmt.Sprintf("/w/%sd%d%s", r.Pick("", "", "sub/"), k, r.Pick(".adoc", ".adoc", ".asciidoc", ".txt"))
				sc.Files = append(sc.Files, File{Path: p, Data: Text(probes(r, spec.Opts)), Mtime: (1600000000 + int64(r.N(1e6))) * 1e9})
				a := p
				if r.P(60) {
					a = strings.TrimPrefix(p, "/w/")
				}
				spec.Sources = append(spec.Sources, a)
			}
			switch {
			case r.P(25):
				spec.Out = "-"
			case len(spec.Sources) == 1 && r.P(25):
				spec.Out = r.Pick("out.html", "/w/o=1.html", "sub.x/o.html")
				sc.Files = append(sc.Files, File{Path: "/w/sub.x", Dir: true})
			}
			if r.P(20) {
				sc.ShortP, sc.FSSeed = 300, r.U()
			}
			if r.P(30) {
				oldOutputs(r, sc, spec.Sources)
				if o := absPath(sc.Cwd, spec.Out); spec.Out != "" && spec.Out != "-" && r.P(50) {
					sc.Files = append(sc.Files, File{Path: o, Data: Text(r.Pick("", "<div>old</div>\n", strings.Repeat("<p>old</p>\n", 3000))), Mtime: (1600000000 + int64(r.N(2e6))) * 1e9})
				}
			}
			if r.P(6) {
				k := r.N(len(spec.Sources))
				sc.Events = append(sc.Events, simos.Event{Op: "read", Path: absPath(sc.Cwd, spec.Sources[k]), Nth: 1, Err: "EIO"})
			}
			sc.Expect = mustJSON(spec)
			cliScenario(r, sc, cliSpec{})
			sc.Tasks[0].Ops[0].Args = spec.args()
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			var spec optSpec
			if err := json.Unmarshal(sc.Expect, &spec); err != nil {
				return nil, err
			}
			c := clone(sc)
			c.Tasks[0].Ops[0].Args = spec.args()
			res, err := x.Run(c)
			if err != nil {
				return nil, err
			}
			o := outcomeOf(res, &res.Ops[0][0])
			var v []Viol
			stdout, failed := "", false
			for k, s := range spec.Sources {
				for _, e := range sc.Events {
					failed = failed || e.Path == absPath(sc.Cwd, s)
				}
				if failed {
					break
				}
				ro, _, err := x.Ref(sc, Op{Kind: "convertfile", Cfg: spec.cfg(s)}, nil)
				if err != nil {
					return nil, err
				}
				if ro.Class == "error" {
					failed = true
					break
				}
				if ro.Class != "ok" {
					return nil, nil // this document is C15's business
				}
				if spec.Out == "-" {
					stdout += string(ro.Out)
					continue
				}
				out := outName(sc.Cwd, s)
				if spec.Out != "" {
					out = absPath(sc.Cwd, spec.Out)
				}
				if got, ok := res.After[out]; !ok || Text(got) != ro.Out {
					v = append(v, Viol{"output of the command", fmt.Sprintf("%v: source %d (%s), exit status %d %s: %s", spec.args(), k, path.Base(s), o.Exit, clip(string(o.Stderr), 200), firstDiff(string(got), string(ro.Out)))})
				}
			}
			if o.Class != "exit" {
				return append(v, Viol{"crash", o.Class + " " + o.Panic}), nil
			}
			if failed != (o.Exit != 0) {
				v = append(v, Viol{"exit status", fmt.Sprintf("%v: exit status %d, the conversion of a source fails: %v: %s", spec.args(), o.Exit, failed, clip(string(o.Stderr), 300))})
			}
			if spec.Out == "-" && stdout != string(o.Stdout) && !failed {
				v = append(v, Viol{"output of the command", fmt.Sprintf("%v: standard output: %s", spec.args(), firstDiff(string(o.Stdout), stdout))})
			}
			return v, nil
		},
		Shrink: func(sc *Scenario) []*Scenario {
			res := append(shrinkSchedOnly(sc), shrinkEvents(sc)...)
			var spec optSpec
			if json.Unmarshal(sc.Expect, &spec) == nil {
				put := func(s optSpec) {
					c := clone(sc)
					c.Expect = mustJSON(s)
					c.Tasks[0].Ops[0].Args = s.args()
					res = append(res, c)
				}
				for i := range spec.Opts {
					s := spec
					s.Last = min(s.Last, len(s.Opts)-1)
					s.Opts = append(append([]cliOpt(nil), s.Opts[:i]...), s.Opts[i+1:]...)
					put(s)
				}
				if spec.Last > 0 {
					s := spec
					s.Last = 0
					put(s)
				}
				if len(spec.Sources) > 1 {
					for i := range spec.Sources {
						s := spec
						s.Sources = append(append([]string(nil), spec.Sources[:i]...), spec.Sources[i+1:]...)
						put(s)
					}
				}
			}
			for i := range sc.Files {
				if sc.Files[i].Dir {
					continue
				}
				for _, t := range textShrinks(string(sc.Files[i].Data)) {
					c := clone(sc)
					c.Files[i].Data = Text(t)
					res = append(res, c)
				}
			}
			return res
		},
	})
}
