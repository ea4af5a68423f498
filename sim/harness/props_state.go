//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"strings"

	"github.com/bytesparadise/libasciidoc/verifsim/simos"
)

// sameSize changes some letters of a text
func sameSize(r *Rng, t Text) Text {
	b := []byte(t)
	for k, n := 0, 0; k < 400 && n < 12 && len(b) > 0; k++ {
		if i := r.N(len(b)); b[i] >= 'a' && b[i] < 'z' {
			b[i]++
			n++
		}
	}
	return Text(b)
}

func init() {
	register(&Prop{
		ID: "C07", Quick: 1500, Thorough: 40000,
		Rule: "A case is a sequence of 2 to 7 conversions in one process, some of which fail (source, output, file, macro failures, invalid documents), with edits of the files, changes of directory and the end of faults in between; every conversion which is not itself disturbed is compared with the same conversion alone in a fresh process on the files as they are at that moment.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{SnapOps: true}
			sc.Files = withImages(r, genFiles(r, "/doc", r.R(2, 4)))
			var ts TaskSpec
			n := r.R(2, 7)
			if r.P(40) {
				for k := r.R(1, 2); k > 0; k-- {
					sc.Events = append(sc.Events, genFileEvent(r, sc.Files))
				}
			}
			faulty := len(sc.Events) > 0
			for k := 0; k < n; k++ {
				switch r.W(30, 25, 10, 8, 6, 8, 8, 5) {
				case 0:
					ts.Ops = append(ts.Ops, genConvertSmall(r))
				case 1:
					op := Op{Kind: "convertfile", Cfg: genCfg(r)}
					op.Cfg.Filename = sc.Files[0].Path
					ts.Ops = append(ts.Ops, op)
				case 2:
					op := genConvertSmall(r)
					op.R.ErrAt = 1 + r.N(len(op.Src)+1)
					ts.Ops = append(ts.Ops, op)
				case 3:
					op := genConvertSmall(r)
					op.W.FailAt = 1 + r.N(2000)
					ts.Ops = append(ts.Ops, op)
				case 4:
					op := genConvertSmall(r)
					op.Cfg.Macros = []MacroSpec{{Name: "hello", Mode: r.Pick("fail", "panic"), FailOn: 1}}
					op.Src += "\n\nhello::x[]\n"
					ts.Ops = append(ts.Ops, op)
				case 5:
					f := sc.Files[r.N(len(sc.Files))]
					if r.P(50) {
						// an edit which leaves the size, and often the time, as they were; the file is converted before and after it
						if r.P(60) {
							op := Op{Kind: "convertfile", Cfg: genCfg(r)}
							op.Cfg.Filename = sc.Files[0].Path
							again := op
							host := Op{Kind: "host", Act: r.Pick("put", "overwrite"), Path: f.Path, Src: sameSize(r, f.Data), Mtime: f.Mtime}
							ts.Ops = append(ts.Ops, op, host, again)
							break
						}
						ts.Ops = append(ts.Ops, Op{Kind: "host", Act: r.Pick("put", "overwrite"), Path: f.Path, Src: sameSize(r, f.Data), Mtime: f.Mtime + int64(r.N(2))})
						break
					}
					g := &DocGen{r: r}
					ts.Ops = append(ts.Ops, Op{Kind: "host", Act: r.Pick("put", "overwrite"), Path: f.Path, Src: Text(g.Doc(r.R(1, 4))), Mtime: 1650000000e9 + int64(r.N(1000))*1e9})
				case 6:
					ts.Ops = append(ts.Ops, Op{Kind: "convert", Cfg: Cfg{Backend: r.Pick("html5", "nosuch")}, Src: Text(r.Pick("include::missing.adoc[]\n", "= T\n\ninclude::/doc/f0.adoc[lines=x]\n", "hello::a[]\n"))})
				case 7:
					if faulty {
						ts.Ops = append(ts.Ops, Op{Kind: "host", Act: "clearevents"})
						faulty = false
					} else {
						ts.Ops = append(ts.Ops, Op{Kind: "host", Act: "jump", Mtime: int64(r.N(1e9)) * 1e7})
					}
				}
			}
			if faulty {
				ts.Ops = append(ts.Ops, Op{Kind: "host", Act: "clearevents"})
			}
			// once faults stop, work resumes
			op := Op{Kind: "convertfile", Cfg: genCfg(r)}
			op.Cfg.Filename = sc.Files[0].Path
			ts.Ops = append(ts.Ops, op, genConvertSmall(r))
			sc.Tasks = []TaskSpec{ts}
			addSched(r, sc)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			clear := 0
			if len(sc.Events) > 0 {
				clear = len(sc.Tasks[0].Ops)
				for j, op := range sc.Tasks[0].Ops {
					if op.Act == "clearevents" {
						clear = j
						break
					}
				}
			}
			var v []Viol
			for j, op := range sc.Tasks[0].Ops {
				if op.Kind == "host" {
					continue
				}
				o := outcomeOf(res, &res.Ops[0][j])
				if o.Class == "crash" || o.Class == "abort" || o.Class == "pending" {
					break // the process is gone
				}
				disturbed := op.R.ErrAt > 0 || op.W.FailAt > 0 || j < clear
				for _, m := range op.Cfg.Macros {
					disturbed = disturbed || m.Mode == "fail" || m.Mode == "panic"
				}
				if disturbed {
					continue
				}
				files := o.Files
				if files == nil {
					files = sc.Files
				}
				want, _, err := x.Ref(sc, op, files)
				if err != nil {
					return nil, err
				}
				if d := diffOutcome(o, want, true); d != "" {
					v = append(v, Viol{"earlier conversions matter", fmt.Sprintf("operation %d: %s", j, d)})
				}
			}
			return v, nil
		},
	})

	register(&Prop{
		ID: "C08", Quick: 2500, Thorough: 60000,
		Rule: "A case is 2 to 6 conversions which use one configuration value, or several configurations built from one attribute map, one after the other or in concurrent goroutines, with documents that set attributes, authors, revisions, captions and invalid manpages and which may fail; the configuration is compared before and after every operation, every outcome with the same conversion given a fresh configuration.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{}
			cfg := genCfg(r)
			conc := r.P(35)
			sc.Files = withImages(r, genFiles(r, "/doc", 2))
			cfg.Filename = r.Pick("", "/doc/f0.adoc")
			m, names := genMacros(r)
			if r.P(25) {
				cfg.Macros = m
			} else {
				names = nil
			}
			if r.P(60) {
				cfg.ID = "shared"
			} else {
				cfg.AttrMap = "shared"
			}
			nt := 1
			if conc {
				nt = r.R(2, 3)
			}
			for t := 0; t < nt; t++ {
				var ts TaskSpec
				for k := r.R(1, 4); k > 0; k-- {
					op := genConvertSmall(r)
					if len(op.Cfg.Macros) > 0 && names == nil {
						op.Cfg.Macros = nil
					}
					op.Cfg = cfg
					if r.P(20) && cfg.Filename != "" {
						op.Kind, op.Src = "convertfile", ""
					} else if r.P(35) {
						op.Src = Text(stateful(r))
					}
					ts.Ops = append(ts.Ops, op)
				}
				sc.Tasks = append(sc.Tasks, ts)
			}
			addSched(r, sc)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			var v []Viol
			first := ""
			for i := range res.Ops {
				for j := range res.Ops[i] {
					o := &res.Ops[i][j]
					if o.CfgBefore != o.CfgAfter && o.CfgAfter != "" {
						v = append(v, Viol{"configuration altered", fmt.Sprintf("operation %d of task %d: %s", j, i, firstDiff(o.CfgAfter, o.CfgBefore))})
					}
					if first == "" {
						first = o.CfgBefore
					}
				}
			}
			d, err := compareAll(x, sc, res, "reused configuration matters")
			return append(v, d...), err
		},
	})

	register(&Prop{
		ID: "C12", Quick: 7000, Thorough: 60000,
		Rule: "A case is a tree of documents in which one inclusion cannot be resolved or read (missing, denied, too many open files, a directory, a dangling or circular link, a read error at a seeded read, vanishing right before it is opened; or it can be read, but does not have a tag which is asked for, or its lines, tags or offset are not valid), at a seeded depth and place; the conversion has to fail with an error that quotes the directive and nothing may be written. Inclusions in a region excluded by a condition may not be touched.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{}
			depth := r.R(0, 3)
			dirs := []string{"", "a/", "a/b/", "z/"}
			name := func(k int) string {
				if k == 0 {
					return "f0.adoc"
				}
				return fmt.Sprintf("%sf%d.adoc", dirs[(k*7+i)%4], k)
			}
			bad := r.Pick("missing.adoc", "sub/missing.adoc", "../missing.txt", "bad.adoc", "bad.txt")
			attrs := r.Pick("", "", "lines=1..2", "tag=t1", "leveloffset=+1")
			wrong := r.P(20) // the file can be read, but what is to be taken of it cannot be found, or is not valid
			if wrong {
				bad = r.Pick("bad.adoc", "bad.txt", "sub/bad.adoc")
				attrs = r.Pick("tag=nosuch", "tags=t1;nosuch", "tags=nosuch;t1", "tags=!nosuch", "tags=t1;!nosuch", "tags=*;nosuch", "tags=**;!nosuch", "tags=\"t1,nosuch\"", "tags=t1;t2;nosuch", "tag=x y", "lines=a", "lines=1..x", "lines=1..2;x", "lines=x;1", "tags=t1,lines=x", "leveloffset=x", "leveloffset=+x", "tag=t1,leveloffset=1.5")
			}
			excluded := r.P(25)
			var target string
			for k := 0; k <= depth; k++ {
				g := &DocGen{r: r, noSect: true}
				var b strings.Builder
				fmt.Fprintf(&b, "before %d\n\n", k)
				if r.P(30) {
					b.WriteString(g.lines(1, 3) + "\n\n")
				}
				if k < depth {
					fmt.Fprintf(&b, "include::%s[]\n", relPath(name(k), name(k+1)))
				} else {
					d := "include::" + bad + "[" + attrs + "]"
					if r.P(20) && !excluded {
						b.WriteString("----\n" + d + "\n----\n")
					} else if excluded {
						b.WriteString("ifdef::never-set[]\n" + d + "\nexcluded text\nendif::[]\n")
					} else {
						b.WriteString(d + "\n")
					}
					target = path.Join("/doc", path.Dir(name(k)), bad)
				}
				fmt.Fprintf(&b, "\nafter %d\n", k)
				sc.Files = append(sc.Files, File{Path: "/doc/" + name(k), Data: Text(b.String())})
			}
			content := Text("// tag::t1[]\nincluded one\n// end::t1[]\nincluded two\nincluded three\n")
			how := r.N(9)
			if strings.Contains(bad, "missing") && how > 3 {
				how = r.N(4)
			}
			if !strings.Contains(bad, "missing") && how < 4 {
				how = 4 + r.N(5)
			}
			if wrong {
				how = 9
			}
			switch how {
			case 0, 1:
			case 2:
				sc.Files = append(sc.Files, File{Path: target, Link: "/nowhere/at/all"})
			case 3:
				sc.Files = append(sc.Files, File{Path: target, Link: target})
			case 4:
				sc.Files = append(sc.Files, File{Path: target, Data: content, Mode: 0o644})
				sc.Events = []simos.Event{{Op: "open", Path: target, Nth: 1, Times: -1, Err: openErrs[r.N(len(openErrs))]}}
			case 5:
				sc.Files = append(sc.Files, File{Path: target, Dir: true})
			case 6, 7:
				sc.Files = append(sc.Files, File{Path: target, Data: content})
				sc.Events = []simos.Event{{Op: "read", Path: target, Nth: r.R(1, 2), Times: -1, Err: readErrs[r.N(3)], Partial: r.N(len(content))}}
			case 9:
				content += Text(r.Pick("", "// tag::t2[]\nmore\n// end::t2[]\n", "// tag::t2[]\n", "// end::nosuch[]\n"))
				sc.Files = append(sc.Files, File{Path: target, Data: content})
			case 8:
				sc.Files = append(sc.Files, File{Path: target, Data: content})
				sc.Events = []simos.Event{{Op: "open", Path: target, Nth: 1, Act: "remove", Arg: target}}
			}
			if r.P(40) {
				// files which must not take its place
				for _, p := range []string{path.Join("/doc", bad), path.Join("/doc/a", bad), path.Join("/", bad), path.Join("/doc", path.Base(bad)), path.Join("/doc/z", bad), target + ".adoc", target + "~", strings.TrimSuffix(target, path.Ext(target)), strings.TrimSuffix(target, path.Ext(target)) + ".asciidoc"} {
					exists := p == target || !r.P(70)
					for _, f := range sc.Files {
						exists = exists || f.Path == p
					}
					if !exists {
						sc.Files = append(sc.Files, File{Path: p, Data: "decoy\n"})
					}
				}
				if r.P(30) {
					sc.Cwd = r.Pick("/doc", "/doc/a", "/")
				}
			}
			op := Op{Kind: "convertfile", Cfg: Cfg{Filename: "/doc/f0.adoc", Backend: "html5", HF: r.P(50)}}
			if r.P(25) {
				op.Kind = "convert"
				op.Src = sc.Files[0].Data
			}
			sc.Expect = mustJSON(inclExpect{Directive: "include::" + bad + "[" + attrs + "]", Excluded: excluded, Target: target})
			sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
			sc.WantFS = true
			addSched(r, sc)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			var e inclExpect
			if err := json.Unmarshal(sc.Expect, &e); err != nil {
				return nil, err
			}
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			o := outcomeOf(res, &res.Ops[0][0])
			var v []Viol
			if e.Excluded {
				x.Probe("inclusion in excluded region")
				if o.Class != "ok" {
					v = append(v, Viol{"excluded inclusion resolved", fmt.Sprintf("%s %s", o.Class, o.Err)})
				}
				for _, f := range res.FSLog {
					if f.Path == e.Target {
						v = append(v, Viol{"excluded inclusion resolved", "the file is touched: " + f.Op})
						break
					}
				}
				if strings.Contains(string(o.Out), "excluded text") || strings.Contains(string(o.Out), "included") {
					v = append(v, Viol{"excluded region rendered", clip(string(o.Out), 400)})
				}
				return v, nil
			}
			touched := false
			for _, f := range res.FSLog {
				if f.Path == e.Target && f.Err != "" {
					touched = true
				}
			}
			if len(sc.Events) == 0 && !touched {
				x.Probe("nothing to select")
			}
			if touched {
				x.Probe("inclusion failed")
			}
			switch o.Class {
			case "ok":
				v = append(v, Viol{"unresolved inclusion ignored", fmt.Sprintf("%s cannot be read, yet the conversion reports success", e.Directive)})
			case "error":
				if !strings.Contains(o.Err, e.Directive) {
					v = append(v, Viol{"directive not named", fmt.Sprintf("%s cannot be read, the error is %q", e.Directive, o.Err)})
				}
			default:
				v = append(v, Viol{"crash", o.Panic})
			}
			if o.Out != "" || o.WriteCalls > 0 {
				v = append(v, Viol{"output with unresolved inclusion", fmt.Sprintf("%d bytes written", len(o.Out))})
			}
			return v, nil
		},
		Shrink: shrinkSchedOnly,
	})

	register(&Prop{
		ID: "C13", Quick: 4000, Thorough: 40000,
		Rule: "A case is one or several concurrent conversions (or a run of the command) over trees of documents with inclusions in other directories, images to embed, file errors and failures of every kind; no system call which changes the working directory or the environment of the process may be made at any point of the run.",
		Gen: func(r *Rng, i int) *Scenario {
			var sc *Scenario
			if r.P(45) {
				sc = genAbuse(r)
			} else {
				sc = &Scenario{}
				sc.Files = withImages(r, genFiles(r, "/doc", r.R(2, 5)))
				op := Op{Kind: "convertfile", Cfg: genCfg(r)}
				op.Cfg.Filename = sc.Files[0].Path
				if r.P(40) {
					sc.Cwd = r.Pick("/doc", "/", "/doc/a")
					op.Cfg.Filename = map[string]string{"/doc": "f0.adoc", "/": "doc/f0.adoc", "/doc/a": "../f0.adoc"}[sc.Cwd]
				}
				if r.P(30) {
					op = Op{Kind: "cli", Args: []string{"-o", "-", op.Cfg.Filename}}
				}
				sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
				if r.P(40) && op.Kind != "cli" {
					sc.Tasks = append(sc.Tasks, TaskSpec{Ops: []Op{op}})
				}
				addSched(r, sc)
			}
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			var v []Viol
			if res.Chdirs > 0 {
				v = append(v, Viol{"working directory changed", fmt.Sprintf("%d changes: %v", res.Chdirs, clip(fmt.Sprint(res.ChdirLog), 300))})
			}
			if res.Setenvs > 0 {
				v = append(v, Viol{"environment changed", fmt.Sprint(res.Setenvs)})
			}
			return v, nil
		},
	})

	register(&Prop{
		ID: "C14", Quick: 7000, Thorough: 60000,
		Rule: "A case is a tree of documents including each other across directories with decoys of the same names in the working directory and in the directory of the main document, converted alone or by concurrent goroutines while the host changes the working directory at seeded system calls; the text of exactly the intended files has to appear in the order of the directives.",
		Gen:  genTree,
		Eval: evalTree,
		Shrink: func(sc *Scenario) []*Scenario {
			return append(shrinkSchedOnly(sc), shrinkEvents(sc)...)
		},
	})

	register(&Prop{
		ID: "C15", Quick: 9000, Thorough: 200000,
		Rule: "A case is a document whose stored bytes were damaged (truncated at a byte, flipped bits, a block of zeros, a torn write mixing it with another document, duplicated or swapped pages, stray control characters and directives) as source or as included file; the conversion has to end with a result or an error, without panic, crash of a background goroutine, or unbounded work.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{}
			switch r.W(60, 25, 15) {
			case 0:
				op := genConvertSmall(r)
				op.Src = Text(damage(r, string(op.Src)))
				op.Cfg.Macros = nil
				sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
			case 1:
				sc.Files = genFiles(r, "/doc", r.R(2, 4))
				if r.P(40) {
					// sections at all levels behind inclusions with options of every kind
					g := &DocGen{r: r}
					for i := range sc.Files {
						lines := strings.Split(string(sc.Files[i].Data), "\n")
						for k, l := range lines {
							if at := strings.Index(l, "["); strings.HasPrefix(l, "include::") && at > 0 {
								lines[k] = l[:at] + "[" + g.oddInclude() + "]"
							}
						}
						if i > 0 && r.P(70) {
							lines = append([]string{strings.Repeat("=", r.R(1, 7)) + " " + g.word(), ""}, lines...)
						}
						sc.Files[i].Data = Text(strings.Join(lines, "\n"))
					}
				}
				k := r.N(len(sc.Files))
				sc.Files[k].Data = Text(damage(r, string(sc.Files[k].Data)))
				op := Op{Kind: "convertfile", Cfg: genCfg(r)}
				op.Cfg.Filename = sc.Files[0].Path
				sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
			case 2:
				s := snippets()
				op := Op{Kind: "convert", Cfg: genCfg(r), Src: Text(damage(r, s[r.N(len(s))]))}
				sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
			}
			sc.Sched = genSched(r, 3000)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			v := worldViols(res)
			for i := range res.Ops {
				for j := range res.Ops[i] {
					o := &res.Ops[i][j]
					if o.Class == "panic" {
						v = append(v, Viol{"panic", clip(o.Panic, 300) + " at " + where(o.Stack) + "\n" + clip(o.Stack, 2500)})
					}
				}
			}
			if len(v) == 0 && len(res.Leftover) > 0 {
				v = append(v, Viol{"goroutine left", fmt.Sprint(res.Leftover)})
			}
			// the generated parser catches panics in the actions, and what it was about to parse is dropped
			for _, l := range res.Logs {
				if strings.Contains(l, "runtime error:") {
					v = append(v, Viol{"panic caught by the parser", clip(l, 600)})
					break
				}
			}
			for i := range res.Ops {
				for j := range res.Ops[i] {
					if o := &res.Ops[i][j]; o.Class == "error" && strings.Contains(o.Err, "runtime error:") {
						v = append(v, Viol{"panic caught by the parser", clip(o.Err, 600)})
					}
				}
			}
			return v, nil
		},
	})
}

type inclExpect struct {
	Directive string
	Excluded  bool
	Target    string
}

// where finds the first frame of the repository in a stack
func where(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "verifsim") {
			return strings.Fields(l)[0]
		}
	}
	return ""
}

// stateful writes a document which declares as much as it can
func stateful(r *Rng) string {
	g := &DocGen{r: r}
	var b strings.Builder
	if r.P(25) {
		return Manpage(r)
	}
	b.WriteString("= Title " + g.word() + "\nJane Doe <j@d.org>\nv" + fmt.Sprint(r.N(9)) + ".0, 2020-02-02: Remark\n")
	for _, a := range []string{":at1: from doc", ":at3: doc", ":figure-caption: F" + fmt.Sprint(r.N(9)), ":figure-caption!:", ":table-caption!:", ":example-caption: E", ":version-label!:", ":toc:", ":sectnums:", ":idprefix: d_", ":imagesdir: di", ":icons: font", ":doctype: article", ":cnta: 7"} {
		if r.P(35) {
			b.WriteString(a + "\n")
		}
	}
	b.WriteString("\n{at1} {at2} {at3} {cnta} {author} {revnumber} {counter:cnta} {counter:cntb}\n\n.fig\nimage::a.png[]\n\n.tab\n|===\n|x\n|===\n\n.ex\n====\nfoo\n====\n\n")
	for k := r.R(0, 4); k > 0; k-- {
		b.WriteString(g.Block() + "\n")
	}
	b.WriteString("\n:at1!:\n\n{at1}\n\n== Section\n\n== Section\n\nfootnote:[x]\n")
	return b.String()
}

// damage corrupts the stored bytes of a file
func damage(r *Rng, s string) string {
	for k := r.R(1, 3); k > 0 && len(s) > 0; k-- {
		n := len(s)
		switch r.N(12) {
		case 0, 1:
			s = s[:r.N(n+1)]
		case 2:
			b := []byte(s)
			for c := r.R(1, 8); c > 0; c-- {
				b[r.N(n)] ^= 1 << uint(r.N(8))
			}
			s = string(b)
		case 3:
			i := r.N(n)
			j := min(n, i+r.R(1, 64))
			s = s[:i] + strings.Repeat("\x00", j-i) + s[j:]
		case 4:
			sn := snippets()
			o := sn[r.N(len(sn))]
			i := r.N(n)
			if i < len(o) {
				s = s[:i] + o[i:]
			}
		case 5:
			i := r.N(n)
			j := min(n, i+r.R(1, 200))
			s = s[:j] + s[i:j] + s[j:]
		case 6:
			i := r.N(n)
			j := min(n, i+r.R(1, 100))
			s = s[:i] + s[j:]
		case 7:
			s = s[r.N(n):]
		case 8:
			i := r.N(n)
			s = s[:i] + r.Pick("\r", "\x00", "\xff\xfe", "\u2028", "\x1b", "\t", "\n\n", "\\", "|", "[", "]", "{", "}", "<<", ">>", "::", "|===\n", "----\n", "====\n", "____\n", "++++\n", "\n:", "\n[", "\n.", "\n+\n", "\n= ", "\n== ") + s[i:]
		case 9:
			l := strings.SplitAfter(s, "\n")
			i, j := r.N(len(l)), r.N(len(l))
			l[i], l[j] = l[j], l[i]
			s = strings.Join(l, "")
		case 10:
			l := strings.SplitAfter(s, "\n")
			i := r.N(len(l))
			s = strings.Join(append(l[:i:i], l[i+1:]...), "")
		case 11:
			l := strings.SplitAfter(s, "\n")
			i := r.N(len(l))
			l[i] = r.Pick("endif::[]\n", "ifdef::x[]\n", "// end::t1[]\n", "// tag::t1[]\n", "[cols=\"1,1\"]\n", "[%header%footer]\n", "|===\n", ":toc:\n", "====\n", "[quote]\n", "* x\n", "+\n", "--\n", "[[id]]\n", "toc::[]\n", ":doctype: manpage\n", "ifeval::[1 == 1]\n", "include::[]\n", "footnote:[\n", "<1> x\n", "x::\n", "....\n", "[NOTE]\n", "'''\n") + l[i]
			s = strings.Join(l, "")
		}
	}
	return s
}

func shrinkEvents(sc *Scenario) []*Scenario {
	var res []*Scenario
	for i := range sc.Events {
		c := clone(sc)
		c.Events = append(c.Events[:i], c.Events[i+1:]...)
		res = append(res, c)
	}
	return res
}

// shrinkSchedOnly simplifies what does not belong to the expectation
func shrinkSchedOnly(sc *Scenario) []*Scenario {
	var res []*Scenario
	add := func(f func(c *Scenario)) {
		c := clone(sc)
		f(c)
		res = append(res, c)
	}
	if len(sc.Tasks) > 1 {
		for i := range sc.Tasks {
			i := i
			add(func(c *Scenario) { c.Tasks = append(c.Tasks[:i], c.Tasks[i+1:]...) })
		}
	}
	if sc.Sched.Strategy != "fifo" {
		add(func(c *Scenario) { c.Sched.Strategy, c.Sched.HotP, c.Sched.Switches = "fifo", 0, nil })
	}
	if sc.Sched.Maps != "sorted" {
		add(func(c *Scenario) { c.Sched.Maps = "sorted" })
	}
	if sc.Sched.PoolNew != 0 {
		add(func(c *Scenario) { c.Sched.PoolNew = 0 })
	}
	if sc.ShortP != 0 {
		add(func(c *Scenario) { c.ShortP = 0 })
	}
	if sc.Base != 0 || sc.Tick != 0 {
		add(func(c *Scenario) { c.Base, c.Tick = 0, 0 })
	}
	for i := range sc.Tasks {
		for j := range sc.Tasks[i].Ops {
			i, j := i, j
			op := &sc.Tasks[i].Ops[j]
			if op.R.Mode != "" {
				add(func(c *Scenario) { c.Tasks[i].Ops[j].R.Mode = "" })
			}
			if op.Cfg.HF {
				add(func(c *Scenario) { c.Tasks[i].Ops[j].Cfg.HF = false })
			}
			if op.Cfg.CSS != nil {
				add(func(c *Scenario) { c.Tasks[i].Ops[j].Cfg.CSS = nil })
			}
		}
	}
	return res
}

type treeExpect struct {
	Order   []string `json:"order"` // tokens in the order of the output
	Missing string   // file which is not there
}

// genTree draws a tree of inclusions with decoys
// isAdoc tells if directives in the file are processed
func isAdoc(p string) bool {
	switch path.Ext(p) {
	case ".adoc", ".asciidoc", ".ad", ".asc", ".txt":
		return true
	}
	return false
}

// isDir tells if one of the directories has this path
func isDir(dirs []string, p string) bool {
	for _, d := range dirs {
		if strings.HasPrefix(d, p+"/") {
			return true
		}
	}
	return false
}

func genTree(r *Rng, i int) *Scenario {
	sc := &Scenario{}
	type fl struct {
		name string
		toks []string
	}
	dirs := []string{"", "a/", "b/", "a/b/", "a/a/"}
	for n := r.W(60, 25, 15); n > 0; n-- {
		dirs = append(dirs, dirs[r.N(5)]+r.Pick("a.b/", "x.adoc/", ".h/", "%41/", "\u00e9t\u00e9/", "w/doc/", "a-b_c/", "main.adoc.d/"))
	}
	opts := func() string {
		if r.P(75) {
			return ""
		}
		return r.Pick("leveloffset=+1", "lines=1..-1", "tags=**", "lines=1..999", "leveloffset=-1,lines=1..-1")
	}
	files := map[string]string{}
	seq := 0
	var order []string
	token := func() string { seq++; return fmt.Sprintf("TOK%dX", seq) }
	var build func(name string, depth int, flat bool)
	count, limit, deepest := 0, 9, 4
	if r.P(12) {
		limit, deepest = 30, 12
	}
	// every file is included exactly once, so that the expected order is that of a depth first walk
	build = func(name string, depth int, flat bool) {
		var b strings.Builder
		n := r.R(1, 4)
		t := token()
		order = append(order, t)
		b.WriteString("text " + t + "\n\n")
		for k := 0; k < n; k++ {
			if depth < deepest && count < limit && r.P(60) {
				count++
				child := fmt.Sprintf("%s%s", dirs[r.N(len(dirs))], r.Pick("x.adoc", "y.adoc", "part.adoc", "z.asciidoc"))
				if r.P(10) {
					child = path.Join(path.Dir(child), r.Pick("README", "a.b.txt", "x.ad", "y.asc", "z.adoc.in", "..x", "\u00fcber.adoc", "main.adoc", "q.html"))
				}
				for files[child] != "" || isDir(dirs, child) || child == "main.adoc" {
					child = strings.TrimSuffix(child, path.Ext(child)) + "q" + path.Ext(child)
				}
				files[child] = "reserved"
				p := relPath(name, child)
				switch n := r.N(7); {
				case n == 0:
					p = "./" + p
				case n == 2 && !flat:
					// the same attribute all over the tree, with another value
					if d := path.Dir(p); d != "." {
						b.WriteString(":dir: " + d + "\n\n")
						p = "{dir}/" + path.Base(p)
					}
				case n == 1 && !flat:
					d := path.Dir(p)
					if d != "." && !strings.Contains(d, "..") {
						b.WriteString(":dir" + fmt.Sprint(count) + ": " + d + "\n\n")
						p = "{dir" + fmt.Sprint(count) + "}/" + path.Base(p)
					}
				}
				if !flat && r.P(25) {
					delim := r.Pick("====", "====", "----", "....", "****", "____", "```")
					b.WriteString(delim + "\n")
					b.WriteString("include::" + p + "[" + opts() + "]\n")
					if isAdoc(child) {
						build(child, depth+1, true)
					} else {
						build(child, deepest, true)
					}
					b.WriteString(delim + "\n\n")
				} else {
					b.WriteString("include::" + p + "[" + opts() + "]\n\n")
					if isAdoc(child) {
						build(child, depth+1, flat)
					} else {
						build(child, deepest, true) // directives in files of other kinds are text
					}
				}
				t := token()
				order = append(order, t)
				b.WriteString("text " + t + "\n\n")
			} else {
				t := token()
				order = append(order, t)
				b.WriteString("text " + t + "\n\n")
			}
		}
		files[name] = b.String()
	}
	build("main.adoc", 0, false)
	root := "/w/doc"
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sortStrings(names)
	missing := ""
	if len(names) > 1 && r.P(20) {
		if m := names[r.N(len(names))]; m != "main.adoc" {
			missing = root + "/" + m
		}
	}
	for _, n := range names {
		if root+"/"+n == missing {
			continue
		}
		sc.Files = append(sc.Files, File{Path: root + "/" + n, Data: Text(files[n])})
	}
	// decoys: same names relative to other directories
	cwds := []string{"/w", "/w/doc", "/w/doc/a", "/elsewhere", "/"}
	for _, n := range names {
		for _, d := range append(cwds, "/w/doc/a/b", "/w/doc/b") {
			for _, m := range []string{n, path.Base(n)} {
				p := path.Join(d, m)
				exists := p == missing
				for _, f := range sc.Files {
					if f.Path == p || strings.HasPrefix(f.Path, p+"/") || strings.HasPrefix(p, f.Path+"/") {
						exists = true
					}
				}
				if !exists && r.P(60) {
					sc.Files = append(sc.Files, File{Path: p, Data: "DECOY text\n"})
				}
			}
		}
	}
	op := Op{Kind: "convertfile", Cfg: Cfg{Filename: root + "/main.adoc", Backend: r.Pick("html5", "xhtml5")}}
	sc.Cwd = cwds[r.N(len(cwds))]
	rel := r.P(35)
	if rel {
		switch sc.Cwd {
		case "/w":
			op.Cfg.Filename = "doc/main.adoc"
		case "/w/doc":
			op.Cfg.Filename = r.Pick("main.adoc", "./main.adoc")
		case "/w/doc/a":
			op.Cfg.Filename = "../main.adoc"
		case "/elsewhere":
			op.Cfg.Filename = "../w/doc/main.adoc"
		case "/":
			op.Cfg.Filename = "w/doc/main.adoc"
		}
	} else {
		for k := r.N(4); k > 0; k-- {
			sc.Events = append(sc.Events, simos.Event{Nth: r.R(1, 25), Act: "chdir", Arg: cwds[r.N(len(cwds))]})
		}
	}
	if r.P(30) {
		op.Kind = "convert"
		op.Src = Text(files["main.adoc"])
	}
	sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
	if r.P(40) {
		sc.Tasks = append(sc.Tasks, TaskSpec{Ops: []Op{op}})
		if r.P(50) {
			sc.Files = append(sc.Files, File{Path: "/z/k/l.adoc", Data: "include::../m.adoc[]\n"}, File{Path: "/z/m.adoc", Data: "include::k/n.adoc[]\n"}, File{Path: "/z/k/n.adoc", Data: "plain\n"})
			sc.Tasks[1].Ops[0] = Op{Kind: "convertfile", Cfg: Cfg{Filename: "/z/k/l.adoc", Backend: "html5"}}
		}
	}
	sc.Expect = mustJSON(treeExpect{order, missing})
	addSched(r, sc)
	return sc
}

var tokRE = regexp.MustCompile(`TOK[0-9]+X|DECOY`)

func evalTree(x *Ctx, sc *Scenario) ([]Viol, error) {
	var e treeExpect
	if err := json.Unmarshal(sc.Expect, &e); err != nil {
		return nil, err
	}
	res, err := x.Run(sc)
	if err != nil {
		return nil, err
	}
	var v []Viol
	for i := range sc.Tasks {
		if strings.HasPrefix(sc.Tasks[i].Ops[0].Cfg.Filename, "/z/") {
			continue
		}
		o := outcomeOf(res, &res.Ops[i][0])
		if e.Missing != "" {
			if o.Class != "error" || o.Out != "" {
				v = append(v, Viol{"another file included", fmt.Sprintf("task %d: %s does not exist, yet the conversion ends with %s, and the output has %v", i, e.Missing, o.Class, tokRE.FindAllString(string(o.Out), -1))})
			}
			continue
		}
		if o.Class != "ok" {
			v = append(v, Viol{"inclusion not found", fmt.Sprintf("task %d: %s %s%s", i, o.Class, o.Err, o.Panic)})
			continue
		}
		got := tokRE.FindAllString(string(o.Out), -1)
		if strings.Join(got, " ") != strings.Join(e.Order, " ") {
			v = append(v, Viol{"wrong files included", fmt.Sprintf("task %d: the output has %v, want %v", i, got, e.Order)})
		}
	}
	return v, nil
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
