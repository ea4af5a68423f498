//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"
	"time"

	"github.com/bytesparadise/libasciidoc/verifsim/simos"
)

var readErrs = []string{"EIO", "ESTALE", "ENOMEM", "EINTR", "EAGAIN"}
var openErrs = []string{"EACCES", "ENOENT", "EMFILE", "ENFILE", "EIO", "ELOOP", "ENAMETOOLONG"}

func addSched(r *Rng, sc *Scenario) {
	size := 0
	for _, t := range sc.Tasks {
		for _, o := range t.Ops {
			size += len(o.Src)
		}
	}
	for _, f := range sc.Files {
		size += len(f.Data)
	}
	sc.Sched = genSched(r, size)
}

// genAbuse draws a scenario in which something goes wrong during one conversion
func genAbuse(r *Rng) *Scenario {
	sc := &Scenario{}
	switch r.W(14, 10, 22, 12, 26, 10, 6) {
	case 0: // the source fails
		op := genConvertSmall(r)
		op.R = genReader(r, len(op.Src))
		op.R.ErrAt = 1 + r.N(len(op.Src)+1)
		op.R.ErrW = r.P(40)
		sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
	case 1: // the output fails
		op := genConvertSmall(r)
		op.W = WriterSpec{FailAt: 1 + r.N(4000), Late: r.P(30), Once: r.P(30)}
		sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
	case 2: // files fail
		sc.Files = withImages(r, genFiles(r, "/doc", r.R(2, 5)))
		op := Op{Kind: "convertfile", Cfg: genCfg(r)}
		op.Cfg.Filename = sc.Files[0].Path
		sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
		sc.ShortP = []int{0, 300}[r.N(2)]
		sc.FSSeed = r.U()
		for k := r.R(1, 2); k > 0; k-- {
			sc.Events = append(sc.Events, genFileEvent(r, sc.Files))
		}
	case 3: // macros fail
		op := genConvertSmall(r)
		m, names := genMacros(r)
		if len(names) == 0 {
			m, names = []MacroSpec{{Name: "hello"}}, []string{"hello"}
		}
		k := r.N(len(m))
		m[k].Mode = r.Pick("fail", "panic", "nested")
		m[k].FailOn = r.R(1, 2)
		m[k].Src = Text("nested _doc_\n\n== s\n\nx footnote:[y]")
		op.Cfg.Macros = m
		g := &DocGen{r: r, Macros: names}
		op.Src = Text(g.Doc(r.R(2, 8)) + "\n" + names[0] + "::end[]\n\n" + m[k].Name + "::x[]\n\n" + m[k].Name + "::y[]\n")
		sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
	case 4: // graphs of inclusions
		n := r.R(1, 5)
		dirs := []string{"", "a/", "a/b/"}
		names := make([]string, n)
		for i := range names {
			names[i] = fmt.Sprintf("%sg%d.adoc", dirs[r.N(len(dirs))], i)
		}
		names[0] = "g0.adoc"
		fan := 2
		if n > 3 {
			fan = 1
		}
		for i := range names {
			var b strings.Builder
			fmt.Fprintf(&b, "text %d\n\n", i)
			for k := r.R(0, fan); k > 0; k-- {
				t := names[r.N(n)]
				p := relPath(names[i], t)
				if r.P(15) {
					p = "./" + p
				}
				if r.P(15) {
					p = "{dir}" + p
				}
				fmt.Fprintf(&b, "include::%s[%s]\n\n", p, r.Pick("", "", "leveloffset=+1", "lines=1..-1", "lines=1..9"))
			}
			sc.Files = append(sc.Files, File{Path: "/doc/" + names[i], Data: Text(b.String())})
		}
		if r.P(25) {
			sc.Files = append(sc.Files, File{Path: "/doc/link.adoc", Link: r.Pick("/doc/g0.adoc", "link.adoc", "/doc/link2.adoc"), Data: ""})
			sc.Files[0].Data += "include::link.adoc[]\n"
		}
		if r.P(15) {
			// a long chain without a cycle
			sc.Files = nil
			n := r.R(5, 40)
			for i := 0; i < n; i++ {
				d := fmt.Sprintf("part %d\n", i)
				if i+1 < n {
					d += fmt.Sprintf("\ninclude::g%d.adoc[]\n", i+1)
				}
				sc.Files = append(sc.Files, File{Path: fmt.Sprintf("/doc/g%d.adoc", i), Data: Text(d)})
			}
		}
		op := Op{Kind: "convertfile", Cfg: Cfg{Filename: "/doc/g0.adoc", Backend: "html5"}}
		if r.P(30) {
			op.Kind = "convert"
			op.Src = sc.Files[0].Data
			op.Cfg.Filename = r.Pick("/doc/g0.adoc", "")
			sc.Cwd = "/doc"
		}
		sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
	case 5: // neighbours
		for t := 0; t < 3; t++ {
			op := genConvertSmall(r)
			if r.P(60) {
				op.R.ErrAt = 1 + r.N(len(op.Src)+1)
			}
			sc.Tasks = append(sc.Tasks, TaskSpec{Ops: []Op{op}})
		}
	case 6: // large and slow
		g := &DocGen{r: r}
		op := Op{Kind: "convert", Cfg: genCfg(r), Src: Text(g.Doc(r.R(40, 90)))}
		op.R = genReader(r, len(op.Src))
		sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
	}
	addSched(r, sc)
	return sc
}

func genReader(r *Rng, n int) ReaderSpec {
	return ReaderSpec{Mode: r.Pick("", "byte", "random", "random", "line"), Seed: r.U(), Zeros: r.P(30), EOFW: r.P(50)}
}

func genFileEvent(r *Rng, files []File) simos.Event {
	f := files[r.N(len(files))].Path
	switch r.N(6) {
	case 0:
		return simos.Event{Op: "open", Path: f, Nth: 1, Err: openErrs[r.N(len(openErrs))]}
	case 1, 2:
		return simos.Event{Op: "read", Path: f, Nth: r.R(1, 3), Err: readErrs[r.N(len(readErrs))], Partial: r.N(200)}
	case 3:
		return simos.Event{Op: "read", Nth: r.R(1, 9), Err: readErrs[r.N(len(readErrs))], Partial: r.N(60)}
	case 4:
		return simos.Event{Op: r.Pick("stat", "close", "getwd"), Nth: r.R(1, 3), Err: "EIO"}
	}
	return simos.Event{Nth: r.R(1, 12), Err: "EIO", Times: r.R(0, 2)}
}

type longLine struct {
	Token string `json:"token"`
	After string `json:"after"`
}

func init() {
	register(&Prop{
		ID: "C04", Quick: 6000, Thorough: 100000,
		Rule: "A case is a conversion (or several at once) in which something may go wrong: failing or trickling sources, failing outputs, file errors at random system calls, failing macros, arbitrary graphs of inclusions including cycles, large documents, under a seeded schedule. Every operation has to return within a step budget, no goroutine may be left, and reader, writer and macros may not be used afterwards.",
		Gen:  func(r *Rng, i int) *Scenario { return genAbuse(r) },
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			v := worldViols(res)
			if len(v) > 0 {
				return v, nil
			}
			if len(res.Leftover) > 0 {
				v = append(v, Viol{"goroutine left", fmt.Sprintf("after every operation has returned, these are left: %v", res.Leftover)})
			}
			for i := range res.Ops {
				for j := range res.Ops[i] {
					o := &res.Ops[i][j]
					if o.Class == "pending" {
						v = append(v, Viol{"does not terminate", fmt.Sprintf("operation %d of task %d never returned", j, i)})
					}
					if o.LateReads > 0 || o.LateWrites > 0 {
						v = append(v, Viol{"used after return", fmt.Sprintf("operation %d of task %d: %d reads and %d writes after it returned", j, i, o.LateReads, o.LateWrites)})
					}
					for _, m := range o.Macros {
						if m.Late {
							v = append(v, Viol{"used after return", "macro executed after the conversion returned"})
						}
					}
					if o.Class == "panic" && !strings.Contains(o.Panic, "macro panic") {
						v = append(v, Viol{"panic", clip(o.Panic, 300) + "\n" + clip(o.Stack, 2500)})
					}
					if o.Class == "error" {
						x.Probe("conversion ended with an error")
					}
				}
			}
			return v, nil
		},
	})

	register(&Prop{
		ID: "C09", Quick: 3000, Thorough: 80000,
		Rule: "A case is one document delivered through a reader with seeded chunk sizes (single bytes, lines, random, empty reads, last bytes together with io.EOF) or a tree of files read with seeded short reads; the outcome is compared with the same document delivered at once.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{}
			d := groupRng("C09", i/3)
			if d.P(65) {
				op := genConvert(d)
				if d.P(20) {
					// lines which end in various ways
					op.Src = Text(strings.ReplaceAll(string(op.Src), "\n", d.Pick("\r\n", "\n\n", "\n", " \n")))
				}
				if d.P(10) {
					op.Src = Text(strings.TrimRight(string(op.Src), "\n") + d.Pick("", "\r", " ", "\n\n\n"))
				}
				if d.P(8) {
					op.Src = op.Src + Text("\n\n"+strings.Repeat("long ", d.R(500, 5000))+"\n\nend\n")
				}
				if d.P(10) {
					op.Src = Text(d.Pick("\xef\xbb\xbf", "\xff\xfe", "\x00", "\n", " ", "\xef\xbb", "\u200b")) + op.Src
				}
				if d.P(4) {
					op.Src = op.Src[:d.N(min(4, len(op.Src)+1))] // next to nothing
				}
				op.R = genReader(r, len(op.Src))
				sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
			} else {
				sc.Files = withImages(d, genFiles(d, "/doc", d.R(1, 5)))
				if d.P(10) {
					k := d.N(len(sc.Files))
					sc.Files[k].Data = "\xef\xbb\xbf" + sc.Files[k].Data
				}
				op := Op{Kind: "convertfile", Cfg: genCfg(d)}
				op.Cfg.Filename = sc.Files[0].Path
				sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
				sc.ShortP = []int{100, 500, 1000}[r.N(3)]
				sc.FSSeed = r.U()
			}
			addSched(r, sc)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			return compareAll(x, sc, res, "result depends on how the input is delivered")
		},
	})

	register(&Prop{
		ID: "C10", Quick: 4000, Thorough: 80000,
		Rule: "A case is a conversion whose source reader fails at a seeded offset (with or without bytes in the same call), or whose source file or one of its included files fails at a seeded read, or which holds a line longer than any buffer; a failed read has to surface as an error and nothing may be written, a success has to mean that the whole source was consumed.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{}
			switch r.W(45, 35, 20) {
			case 0:
				sc.Kind = "reader"
				op := genConvertSmall(r)
				op.R = genReader(r, len(op.Src))
				op.R.ErrAt = 1 + r.N(len(op.Src)+1)
				if r.P(25) {
					op.R.ErrAt = len(op.Src) + 1
				}
				op.R.ErrW = r.P(40)
				op.R.Err = r.Pick("", "", "unexpected EOF", "unexpected EOF", "wrapped EOF", "bufio: token problem", "EINTR", "timeout", "temporary", "deadline", "closed", "closed pipe", "no progress", "short buffer", "bufio.too long", "canceled", "not exist")
				sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
			case 1:
				sc.Kind = "file"
				sc.Files = genFiles(r, "/doc", r.R(1, 4))
				op := Op{Kind: "convertfile", Cfg: genCfg(r)}
				op.Cfg.Filename = sc.Files[0].Path
				sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
				sc.ShortP = []int{0, 300}[r.N(2)]
				sc.FSSeed = r.U()
				f := sc.Files[r.N(len(sc.Files))]
				if r.P(40) {
					f = sc.Files[0]
				}
				sc.Events = []simos.Event{{Op: "read", Path: f.Path, Nth: r.R(1, 3), Err: readErrs[r.N(3)], Partial: r.N(len(f.Data) + 1)}}
			case 2:
				sc.Kind = "long"
				g := &DocGen{r: r, noSect: true}
				tok := fmt.Sprintf("TOKEN%d", r.N(1000))
				aft := fmt.Sprintf("AFTER%d", r.N(1000))
				n := []int{4000, 60000, 65530, 65535, 65536, 65537, 70000, 131072, 200000}[r.N(9)]
				huge := r.P(4)
				if huge {
					n = 1<<20 + []int{-10, 0, 5000}[r.N(3)]
				}
				unit := r.Pick("x", "word ", "ab cd ")
				long := strings.Repeat(unit, n/len(unit)) + " " + tok
				if huge || r.P(30) {
					long = "// " + long + "\n\n" + tok
				}
				before := ""
				if r.P(50) {
					before = g.words(3, 6) + "\n\n"
				}
				body := before + long + "\n\n" + aft + "\n"
				sc.Expect = mustJSON(longLine{tok, aft})
				switch r.N(4) {
				case 0:
					sc.Tasks = []TaskSpec{{Ops: []Op{{Kind: "convert", Src: Text(body), Cfg: Cfg{Backend: "html5"}}}}}
				case 1:
					sc.Files = []File{{Path: "/doc/f0.adoc", Data: Text(body)}}
				case 2:
					sc.Files = []File{{Path: "/doc/f0.adoc", Data: "intro\n\ninclude::f1.adoc[]\n"}, {Path: "/doc/f1.adoc", Data: Text(body)}}
				case 3:
					sc.Files = []File{{Path: "/doc/f0.adoc", Data: Text("intro\n\ninclude::f1.adoc[" + r.Pick("lines=1..-1", "tag=t") + "]\n")}, {Path: "/doc/f1.adoc", Data: Text("// tag::t[]\n" + body + "// end::t[]\n")}}
				}
				if len(sc.Tasks) == 0 {
					sc.Tasks = []TaskSpec{{Ops: []Op{{Kind: "convertfile", Cfg: Cfg{Backend: "html5", Filename: "/doc/f0.adoc"}}}}}
				}
				sc.Sched = genSched(r, 3000)
				sc.Sched.Quantum *= 10
				return sc
			}
			addSched(r, sc)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			op := sc.Tasks[0].Ops[0]
			o := outcomeOf(res, &res.Ops[0][0])
			var v []Viol
			fired := o.ReadErr
			for k := range res.Faults {
				if k != "read:short" {
					fired = true
				}
			}
			if fired {
				switch {
				case o.Class == "ok":
					v = append(v, Viol{"read failure swallowed", fmt.Sprintf("a read failed (%v), yet the conversion reports success and has written %d bytes", res.Faults, len(o.Out))})
				case o.Class == "error" && o.Out != "":
					v = append(v, Viol{"output after failed read", fmt.Sprintf("%d bytes were written although reading failed", len(o.Out))})
				case o.Class == "error" && sc.Kind == "reader" && !strings.Contains(o.Err, errText(op.R.Err, readFault)):
					// which failure is reported may depend on what comes first in the document
					want, _, err := x.Ref(sc, op, nil)
					if err != nil {
						return nil, err
					}
					if want.Class == "ok" {
						v = append(v, Viol{"read failure not reported", fmt.Sprintf("the source failed with %q, the error is %q", errText(op.R.Err, readFault), o.Err)})
					}
				}
			} else if o.Class == "ok" && op.Kind == "convert" && o.Read != len(op.Src) {
				v = append(v, Viol{"source not consumed", fmt.Sprintf("success after reading %d of %d bytes", o.Read, len(op.Src))})
			}
			if sc.Kind == "long" && o.Class == "ok" {
				var e longLine
				if err := json.Unmarshal(sc.Expect, &e); err != nil {
					return nil, err
				}
				if !strings.Contains(string(o.Out), e.Token) || !strings.Contains(string(o.Out), e.After) {
					v = append(v, Viol{"content dropped", fmt.Sprintf("success, but the output (%d bytes) lacks text of the source (%s: %v, %s: %v)", len(o.Out), e.Token, strings.Contains(string(o.Out), e.Token), e.After, strings.Contains(string(o.Out), e.After))})
				}
			}
			if sc.Kind == "reader" && fired && (o.Class == "panic" || o.Class == "crash") {
				want, _, err := x.Ref(sc, op, nil)
				if err != nil {
					return nil, err
				}
				if want.Class == "ok" {
					v = append(v, Viol{"read failure crashes", clip(o.Panic, 500)})
				}
			}
			return v, nil
		},
		Shrink: func(sc *Scenario) []*Scenario {
			if sc.Kind == "long" {
				return nil
			}
			return genericShrink(sc)
		},
	})

	register(&Prop{
		ID: "C11", Quick: 4000, Thorough: 80000,
		Rule: "A case is a conversion into a writer which fails after a seeded number of bytes (partial write, error on the next call, a single failure) at any point of the output, or a conversion which fails before rendering ends; the bytes delivered have to be a prefix of the complete output, a failure of the writer has to be returned, success has to mean that the complete output was delivered, and a conversion which fails for another reason has to write nothing.",
		Gen: func(r *Rng, i int) *Scenario {
			d := groupRng("C11", i/4)
			sc := &Scenario{}
			op := genConvertSmall(d)
			if d.P(65) {
				op.Cfg.HF = true
			}
			if d.P(10) {
				op.Cfg.HF = d.P(50)
				op.Src += Text(bigBlock(d))
			}
			if d.P(6) {
				op.Cfg.Backend = "nosuch"
			}
			op.W = WriterSpec{Late: r.P(25), Once: r.P(40), Err: r.Pick("", "no space left on device", "short write", "EPIPE", "EINTR", "EAGAIN", "timeout", "temporary", "deadline", "closed", "closed pipe", "canceled")}
			sc.Expect = mustJSON(r.N(1050)) // where the writer fails, per mille of the output
			sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
			addSched(r, sc)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			var mille int
			if err := json.Unmarshal(sc.Expect, &mille); err != nil {
				return nil, err
			}
			op := sc.Tasks[0].Ops[0]
			want, _, err := x.Ref(sc, op, nil)
			if err != nil {
				return nil, err
			}
			k := len(want.Out) * mille / 1000
			c := clone(sc)
			c.Tasks[0].Ops[0].W.FailAt = k + 1
			res, err := x.Run(c)
			if err != nil {
				return nil, err
			}
			o := outcomeOf(res, &res.Ops[0][0])
			var v []Viol
			switch {
			case want.Class == "error":
				if o.WriteCalls > 0 {
					v = append(v, Viol{"output of a failed conversion", fmt.Sprintf("the conversion fails (%s), yet %d bytes were written", want.Err, len(o.Out))})
				}
				if o.Class == "ok" {
					v = append(v, Viol{"failure not reported", "success, alone it is " + want.Err})
				}
				x.Probe("conversion fails before output")
			case want.Class != "ok":
			case o.WriteErr:
				x.Probe("output failed")
				if o.Class == "ok" {
					v = append(v, Viol{"write failure swallowed", fmt.Sprintf("the writer failed after %d of %d bytes, yet success is reported", k, len(want.Out))})
				} else if o.Class == "error" && !strings.Contains(o.Err, errText(op.W.Err, writeFault)) {
					v = append(v, Viol{"write failure not reported", fmt.Sprintf("the writer failed with %q, the error is %q", errText(op.W.Err, writeFault), o.Err)})
				} else if o.Class == "panic" || o.Class == "crash" {
					v = append(v, Viol{"write failure crashes", clip(o.Panic, 500)})
				}
				if !strings.HasPrefix(string(want.Out), string(o.Out)) {
					v = append(v, Viol{"delivered bytes are not a prefix", firstDiff(string(o.Out), string(want.Out))})
				}
			default:
				if d := diffOutcome(o, want, true); d != "" {
					v = append(v, Viol{"incomplete output", d})
				}
			}
			return v, nil
		},
	})

	register(&Prop{
		ID: "C19", Quick: 5000, Thorough: 40000,
		Rule: "A case is the conversion of a file while the host replaces, removes or re-dates it, or jumps the clock, right before a seeded file operation; the reported and the rendered modification time have to be those of the version that was converted.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{}
			n := r.R(2, 4)
			t0 := 1500000000 + int64(r.N(90000000))
			mk := func(k int) File {
				return File{Path: "/doc/f0.adoc", Data: Text(fmt.Sprintf("= Doc\n\nversion V%dV here\n\nmore text\n", k)), Mtime: (t0+int64(k)*86400*int64(r.R(1, 40)))*1e9 + int64(r.N(1e9))}
			}
			versions := make([]File, n)
			for k := range versions {
				versions[k] = mk(k)
			}
			sc.Files = []File{versions[0]}
			for k := 1; k < n; k++ {
				sc.Events = append(sc.Events, simos.Event{Nth: r.R(1, 8), Act: "replace", Arg: "/doc/f0.adoc", Data: string(versions[k].Data), Mtime: versions[k].Mtime})
			}
			if r.P(30) {
				sc.Events = append(sc.Events, simos.Event{Nth: r.R(1, 6), Act: "jump", Mtime: int64(r.N(1e9)) * 1e6})
			}
			if r.P(15) {
				sc.Events = append(sc.Events, simos.Event{Nth: r.R(2, 6), Act: "remove", Arg: "/doc/f0.adoc"})
			}
			sc.Base = []int64{0, 1, 4102444800}[r.N(3)]
			op := Op{Kind: "convertfile", Cfg: Cfg{Filename: "/doc/f0.adoc", HF: true, Backend: r.Pick("html5", "xhtml5")}}
			if r.P(30) {
				op.Cfg.LastUpdated = 1234567890
			}
			if r.P(30) {
				op.Cfg.Filename = "f0.adoc"
				sc.Cwd = "/doc"
			}
			sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
			if r.P(40) {
				sc.Tasks[0].Ops = append(sc.Tasks[0].Ops, op)
			}
			sc.Expect = mustJSON(versions)
			addSched(r, sc)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			var versions []File
			if err := json.Unmarshal(sc.Expect, &versions); err != nil {
				return nil, err
			}
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			var v []Viol
			for j := range res.Ops[0] {
				o := outcomeOf(res, &res.Ops[0][j])
				if o.Class != "ok" {
					if o.Class != "error" {
						v = append(v, Viol{"crash", o.Panic})
					}
					continue
				}
				hit := -1
				for k := range versions {
					if strings.Contains(string(o.Out), fmt.Sprintf("V%dV", k)) {
						hit = k
					}
				}
				if hit < 0 {
					continue // an empty or removed version
				}
				want := time.Unix(0, versions[hit].Mtime).Format("2006-01-02 15:04:05 -0700")
				var md struct{ LastUpdated string }
				_ = json.Unmarshal([]byte(o.Meta), &md)
				if md.LastUpdated != want {
					v = append(v, Viol{"wrong modification time", fmt.Sprintf("version %d (modified %s) was converted, the metadata says %s", hit, want, md.LastUpdated)})
				}
				if !strings.Contains(string(o.Out), "Last updated "+want) {
					v = append(v, Viol{"wrong modification time", fmt.Sprintf("version %d (modified %s) was converted, the footer does not say so", hit, want)})
				}
			}
			return v, nil
		},
		Shrink: func(sc *Scenario) []*Scenario {
			var res []*Scenario
			for _, c := range genericShrink(sc) {
				if len(c.Files) == 1 && c.Files[0].Data == sc.Files[0].Data {
					res = append(res, c)
				}
			}
			return res
		},
	})
}

func errText(s, def string) string { return errOr(s, def).Error() }

var _ = path.Join
