//go:build go1.21

package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"path"
	"strings"

	"github.com/bytesparadise/libasciidoc/verifsim/sim"
	"github.com/bytesparadise/libasciidoc/verifsim/simos"
)

// outName is the output file the command derives from a source path
func outName(cwd, src string) string {
	src = absPath(cwd, src)
	return strings.TrimSuffix(src, path.Ext(src)) + ".html"
}

func absPath(cwd, p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	return path.Join(cwd, p)
}

func fileAt(files []File, p string) (File, bool) {
	for _, f := range files {
		if f.Path == p {
			return f, true
		}
	}
	return File{}, false
}

type cliSpec struct {
	Flags   []string `json:"flags,omitempty"`
	Out     string   `json:"out,omitempty"`
	Sources []string `json:"sources"`
}

func (c cliSpec) args() []string {
	a := append([]string(nil), c.Flags...)
	if c.Out != "" {
		a = append(a, "-o", c.Out)
	}
	return append(a, c.Sources...)
}

func cliFlags(r *Rng) []string {
	var f []string
	if r.P(40) {
		f = append(f, "-s")
	}
	if r.P(40) {
		f = append(f, "-a", r.Pick("at1=cli", "at2", "toc", "sectnums", "idprefix=c_", "figure-caption=Abb", "cnta=5"))
	}
	if r.P(20) {
		f = append(f, "-a", r.Pick("at3=x", "imagesdir=img", "icons=font", "experimental", "source-highlighter=chroma", "at1!", "!at2", "toc=preamble", "data-uri", "author=Ann Cli", "revnumber=3", "idseparator=-", "nofooter", "table-caption!"))
	}
	if r.P(10) {
		f = append(f, "-a", "doctype="+r.Pick("manpage", "manpage", "article", "book"))
	}
	if r.P(20) {
		f = append(f, "-b", r.Pick("xhtml5", "html5"))
	}
	if r.P(15) {
		f = append(f, "--css", "/style.css")
	}
	if r.P(15) {
		f = append(f, "--log", r.Pick("error", "warning", "fatal"))
	}
	return f
}

func cliScenario(r *Rng, sc *Scenario, spec cliSpec) {
	sc.Tasks = []TaskSpec{{Ops: []Op{{Kind: "cli", Args: spec.args()}}}}
	sc.WantFS = true
	addSched(r, sc)
	if sc.Sched.Strategy == "lockstep" && sc.Sched.Quantum < 5 {
		sc.Sched.Quantum = 5
	}
}

// cliRef runs the command without faults under the canonical schedule
func (x *Ctx) cliRef(sc *Scenario, spec cliSpec) (*RunResult, error) {
	ref := &Scenario{
		Kind: "ref", Files: sc.Files, Cwd: sc.Cwd, Env: sc.Env, WantFS: true,
		Sched:    sim.Sched{Strategy: "fifo", Maps: "sorted"},
		MaxSteps: stepBudget(sc),
		Tasks:    []TaskSpec{{Ops: []Op{{Kind: "cli", Args: spec.args()}}}},
	}
	return x.ex.Ref(ref)
}

// oddPath gives a path whose parts have extensions, spaces, dots and non-ASCII characters
func oddPath(r *Rng) string {
	ext := r.Pick(".adoc", ".adoc", ".asciidoc", ".txt", ".html", ".a", "")
	dir := "/w"
	for n := r.R(0, 2); n > 0; n-- {
		dir += "/" + r.Pick("docs", "docs", "a.b", "v1", ".hidden", "été", "two words", "%41", "...") + r.Pick("", ext, ext, ".d", ".html")
	}
	return dir + "/" + r.Pick("doc", "doc", "index", "a.b", ".adoc", "über", "my doc", "x.", "..x", "%2e", "-doc") + r.Pick("", "", ext, ".html", ".old") + ext
}

// decoyDirs gives the directories into which the output of p would be written if its extension was
// replaced at another place
func decoyDirs(p string) []File {
	var files []File
	ext := path.Ext(p)
	if ext == "" {
		return nil
	}
	for _, q := range []string{strings.Replace(p, ext, ".html", 1), strings.ReplaceAll(p, ext, ".html"), strings.Replace(p, ext, "", 1)} {
		if d := path.Dir(q); d != path.Dir(p) && path.IsAbs(d) {
			files = append(files, File{Path: d, Dir: true})
		}
	}
	return files
}

// bigBlock is a block of many long lines: its output exceeds any buffer on the way
func bigBlock(r *Rng) string {
	b := &strings.Builder{}
	b.WriteString("\n\n----\n")
	n := r.R(10, 120) * 1000
	for k := 0; b.Len() < n; k++ {
		b.WriteString(fmt.Sprintf("line %d %s\n", k, strings.Repeat("data ", r.R(10, 400))))
	}
	return b.String() + "----\n"
}

// oldOutputs adds outputs which an earlier run has left: complete or not, older or newer than their source
func oldOutputs(r *Rng, sc *Scenario, sources []string) {
	for _, s := range sources {
		out := outName(sc.Cwd, s)
		taken := r.P(50)
		if _, ok := fileAt(sc.Files, absPath(sc.Cwd, s)); !ok {
			continue // (this source is skipped if there is an output, instead of ending the run)
		}
		for _, f := range sc.Files {
			taken = taken || f.Path == out || strings.HasPrefix(f.Path, out+"/")
		}
		if taken {
			continue
		}
		d := r.Pick("", "<!DOCTYPE html>\n<html", "<div>old</div>\n", "<!DOCTYPE html>\n<html>\n"+strings.Repeat("<p>old</p>\n", 3000)+"</html>\n")
		sc.Files = append(sc.Files, File{Path: out, Data: Text(d), Mtime: (1600000000 + int64(r.N(2e6))) * 1e9})
	}
}

func genCliDoc(r *Rng) string {
	if r.P(7) {
		return genSmallDoc(r) + bigBlock(r)
	}
	return genSmallDoc(r)
}

func genSmallDoc(r *Rng) string {
	if r.P(8) {
		return Manpage(r)
	}
	if r.P(35) {
		return stateful(r)
	}
	g := &DocGen{r: r}
	return g.Doc(r.R(1, 10))
}

func init() {
	register(&Prop{
		ID: "C16", Quick: 1500, Thorough: 30000,
		Rule: "A case is one invocation of the command with 2 to 5 source files, some of which declare attributes, fail to convert or do not exist, under a seeded schedule; the files written for each source before the first failure have to be those which an invocation with this source alone writes, and nothing is written for the sources after a failure.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{Cwd: "/w"}
			spec := cliSpec{Flags: cliFlags(r)}
			n := r.R(2, 5)
			// the same names in several directories, with different contents
			same, first := r.P(35), ""
			if same {
				for _, d := range []string{"/w/", "/w/sub/", "/w/sub/b/"} {
					for _, f := range []string{"logo.png", "img/x.png", "part.adoc", "img/part.adoc"} {
						if r.P(90) {
							sc.Files = append(sc.Files, File{Path: d + f, Data: Text("data of " + d + f + "\n"), Mtime: 1600000000e9})
						}
					}
				}
			}
			for k := 0; k < n; k++ {
				p := fmt.Sprintf("/w/%sd%d%s", r.Pick("", "", "sub/"), k, r.Pick(".adoc", ".adoc", ".asciidoc", ".txt", ""))
				if same {
					p = fmt.Sprintf("/w/%sd%d%s", r.Pick("", "sub/", "sub/b/"), k, r.Pick(".adoc", ".adoc", ".txt"))
				}
				if !same && r.P(15) {
					p = path.Join(path.Dir(oddPath(r)), path.Base(p))
					if r.P(50) {
						p = path.Join(path.Dir(p), strings.TrimSuffix(path.Base(p), path.Ext(p))+path.Ext(p)+r.Pick(path.Ext(p), "", ".bak"))
					}
					if r.P(60) {
						sc.Files = append(sc.Files, decoyDirs(p)...)
					}
				}
				d := genCliDoc(r)
				if strings.Contains(strings.Join(spec.Flags, " "), "doctype=manpage") && r.P(60) {
					d = Manpage(r)
				}
				if same {
					d = r.Pick("", ":imagesdir: img\n") + r.Pick("", ":data-uri:\n", ":data-uri:\n") + "\n" + d
					for j := r.R(1, 3); j > 0; j-- {
						d += "\n\n" + r.Pick("image::logo.png[]", "image::x.png[]", "image::img/x.png[]", "text with image:logo.png[]", "include::part.adoc[]", "include::img/part.adoc[]", "include::./part.adoc[lines=1]")
					}
					d += "\n"
				}
				if r.P(8) {
					d += "\n\ninclude::nosuch.adoc[]\n"
				}
				if k == 0 {
					first = strings.TrimPrefix(p, "/w/")
				}
				if r.P(12) && k > 0 {
					d += "\n\ninclude::" + relPath(strings.TrimPrefix(p, "/w/"), first) + "[]\n"
				}
				sc.Files = append(sc.Files, File{Path: p, Data: Text(d), Mtime: (1600000000 + int64(r.N(1e6))) * 1e9})
				a := p
				if r.P(60) {
					a = strings.TrimPrefix(p, "/w/")
				}
				spec.Sources = append(spec.Sources, a)
			}
			if r.P(8) {
				spec.Sources[r.N(n)] = "absent.adoc"
			}
			if r.P(15) {
				spec.Sources = append(spec.Sources, spec.Sources[0])
			}
			if r.P(20) {
				spec.Out = "-"
			}
			if r.P(30) {
				oldOutputs(r, sc, spec.Sources)
			}
			sc.Expect = mustJSON(spec)
			cliScenario(r, sc, spec)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			var spec cliSpec
			if err := json.Unmarshal(sc.Expect, &spec); err != nil {
				return nil, err
			}
			c := clone(sc)
			c.Tasks[0].Ops[0].Args = spec.args()
			res, err := x.Run(c)
			if err != nil {
				return nil, err
			}
			o := outcomeOf(res, &res.Ops[0][0])
			var v []Viol
			stdout := ""
			failed := false
			for k, s := range spec.Sources {
				one := spec
				one.Sources = []string{s}
				ref, err := x.cliRef(sc, one)
				if err != nil {
					return nil, err
				}
				ro := outcomeOf(ref, &ref.Ops[0][0])
				out := outName(sc.Cwd, s)
				if ro.Class != "exit" {
					return nil, nil // this document crashes the command, alone too
				}
				if spec.Out == "-" {
					stdout += string(ro.Stdout)
				} else if ro.Exit == 0 {
					got, want := res.After[out], ref.After[out]
					if got != want {
						v = append(v, Viol{"output depends on the other files", fmt.Sprintf("source %d (%s): %s", k, s, firstDiff(string(got), string(want)))})
					}
				}
				if ro.Exit != 0 {
					failed = true
					for _, s2 := range spec.Sources[k+1:] {
						o2 := outName(sc.Cwd, s2)
						dup := false
						for _, s3 := range spec.Sources[:k+1] {
							dup = dup || outName(sc.Cwd, s3) == o2
						}
						old, had := fileAt(sc.Files, o2)
						if now, ok := res.After[o2]; ok && !dup && spec.Out == "" && !(had && string(now) == string(old.Data)) {
							v = append(v, Viol{"conversion after a failure", fmt.Sprintf("%s was written although %s had failed", o2, s)})
						}
					}
					break
				}
			}
			if failed != (o.Exit != 0) || o.Class != "exit" {
				v = append(v, Viol{"exit status depends on the other files", fmt.Sprintf("%s, exit status %d, a source fails alone: %v", o.Class, o.Exit, failed)})
			}
			if spec.Out == "-" && stdout != string(o.Stdout) {
				v = append(v, Viol{"output depends on the other files", "standard output: " + firstDiff(string(o.Stdout), stdout)})
			}
			return v, nil
		},
		Shrink: cliShrink,
	})

	register(&Prop{
		ID: "C17", Quick: 4000, Thorough: 60000,
		Rule: "A case is one invocation of the command in which seeded system calls fail (opening, reading, creating, writing, closing: no space, quota, I/O error, denied, too many files; sometimes only once), or which is given a missing source or an unknown backend; exit status 0 has to mean that every designated output holds the complete result, any other status has to come with a message.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{Cwd: "/w"}
			spec := cliSpec{Flags: cliFlags(r)}
			n := r.W(0, 70, 30)
			for k := 0; k < n; k++ {
				p := fmt.Sprintf("/w/d%d.adoc", k)
				sc.Files = append(sc.Files, File{Path: p, Data: Text(genCliDoc(r)), Mtime: 1600000000e9})
				spec.Sources = append(spec.Sources, path.Base(p))
			}
			if n == 1 && r.P(40) {
				spec.Out = r.Pick("out.html", "/w/out/o.html", "-")
				if r.P(80) {
					sc.Files = append(sc.Files, File{Path: "/w/out", Dir: true})
				}
			}
			if r.P(30) {
				sc.Files = append(sc.Files, File{Path: "/w/d0.html", Data: Text(strings.Repeat("OLD OUTPUT\n", 3000)), Mtime: 1500000000e9})
			}
			if r.P(25) {
				sc.Files = append(sc.Files, File{Path: "/w/part.adoc", Data: "part\n\ntext\n"})
				sc.Files[0].Data += "\n\ninclude::part.adoc[]\n"
			}
			for k := r.R(0, 2); k > 0; k-- {
				tgt := sc.Files[r.N(n)].Path
				out := outName(sc.Cwd, tgt)
				if spec.Out != "" && spec.Out != "-" {
					out = absPath(sc.Cwd, spec.Out)
				}
				if spec.Out == "-" {
					out = "/dev/stdout"
				}
				werr := r.Pick("ENOSPC", "EDQUOT", "EIO", "EFBIG")
				switch r.N(8) {
				case 0:
					sc.Events = append(sc.Events, simos.Event{Op: "open", Path: out, Nth: 1, Err: r.Pick("EACCES", "ENOSPC", "EROFS", "EMFILE")})
				case 1, 2, 3:
					sc.Events = append(sc.Events, simos.Event{Op: "write", Path: out, Nth: r.R(1, 25), Times: r.Pick2(-1, 1), Err: werr, Partial: r.N(40)})
				case 4, 5:
					sc.Events = append(sc.Events, simos.Event{Op: "close", Path: out, Nth: 1, Err: werr, Partial: r.Pick2(0, r.N(300))})
				case 6:
					sc.Events = append(sc.Events, simos.Event{Op: "read", Path: tgt, Nth: r.R(1, 2), Err: "EIO"})
				case 7:
					sc.Events = append(sc.Events, simos.Event{Op: "open", Path: tgt, Nth: 1, Err: r.Pick("EACCES", "EMFILE", "ENOENT")})
				}
			}
			if r.P(6) {
				spec.Sources = append(spec.Sources, "absent.adoc")
			}
			if r.P(6) {
				spec.Flags = append(spec.Flags, "-b", "nosuch")
			}
			sc.Expect = mustJSON(spec)
			cliScenario(r, sc, spec)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			var spec cliSpec
			if err := json.Unmarshal(sc.Expect, &spec); err != nil {
				return nil, err
			}
			c := clone(sc)
			c.Tasks[0].Ops[0].Args = spec.args()
			res, err := x.Run(c)
			if err != nil {
				return nil, err
			}
			o := outcomeOf(res, &res.Ops[0][0])
			clean := *sc
			ref, err := x.cliRef(&clean, spec)
			if err != nil {
				return nil, err
			}
			ro := outcomeOf(ref, &ref.Ops[0][0])
			if ro.Class != "exit" {
				return nil, nil
			}
			var v []Viol
			if o.Class != "exit" {
				return []Viol{{"crash", o.Class + " " + o.Panic}}, nil
			}
			if len(res.Faults) > 0 {
				x.Probe("fault fired")
			}
			msg := string(o.Stdout) + string(o.Stderr)
			if o.Exit != 0 {
				if strings.TrimSpace(msg) == "" && spec.Out != "-" {
					v = append(v, Viol{"failure without a message", fmt.Sprintf("exit status %d, no message", o.Exit)})
				}
				if len(res.Faults) == 0 && ro.Exit == 0 {
					v = append(v, Viol{"failure without a reason", fmt.Sprintf("exit status %d: %s", o.Exit, clip(msg, 300))})
				}
				return v, nil
			}
			if ro.Exit != 0 {
				v = append(v, Viol{"success reported", fmt.Sprintf("exit status 0; without faults it is %d: %s", ro.Exit, clip(string(ro.Stdout), 300))})
				return v, nil
			}
			if spec.Out == "-" {
				if string(o.Stdout) != string(ro.Stdout) {
					v = append(v, Viol{"success reported", "exit status 0, standard output is not complete: " + firstDiff(string(o.Stdout), string(ro.Stdout))})
				}
				return v, nil
			}
			for _, s := range spec.Sources {
				out := outName(sc.Cwd, s)
				if spec.Out != "" {
					out = absPath(sc.Cwd, spec.Out)
				}
				if res.After[out] != ref.After[out] {
					v = append(v, Viol{"success reported", fmt.Sprintf("exit status 0 (faults: %v), but %s is not complete: %s", res.Faults, out, firstDiff(string(res.After[out]), string(ref.After[out])))})
				}
			}
			return v, nil
		},
		Shrink: cliShrink,
	})

	register(&Prop{
		ID: "C18", Quick: 8000, Thorough: 60000,
		Rule: "A case is one invocation of the command on files whose names, extensions, links and output options make sources, included files and outputs meet (output equal to the source under another spelling, through symbolic or hard links, sources without extension or named *.html), with or without failing system calls; no file other than the designated outputs may be created or changed and the sources have to be intact.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{Cwd: r.Pick("/w", "/w/sub")}
			spec := cliSpec{Flags: cliFlags(r)}
			src := r.Pick("/w/doc.adoc", "/w/doc.html", "/w/doc", "/w/a.b.adoc", "/w/sub/doc.adoc", "/w/doc.HTML", "/w/.adoc", "/w/x.html.adoc", "/w/v1.2/README", "/w/v1.2/doc.adoc", "/w/v1.2/a.b", "/w.d/doc")
			if r.P(40) {
				src = oddPath(r)
				if r.P(60) {
					sc.Files = append(sc.Files, decoyDirs(src)...)
				}
			}
			if d := path.Dir(src); d != "/w" && d != "/w/sub" {
				sc.Files = append(sc.Files, File{Path: d, Dir: true})
			}
			sc.Files = append(sc.Files, File{Path: "/w/sub", Dir: true})
			d := genCliDoc(r) + "\n\ninclude::" + relPath(strings.TrimPrefix(src, "/"), "w/part.adoc") + "[]\n"
			if r.P(30) {
				d = genCliDoc(r)
			}
			sc.Files = append(sc.Files, File{Path: src, Data: Text(d), Mtime: 1600000000e9})
			sc.Files = append(sc.Files, File{Path: "/w/part.adoc", Data: "part\n"}, File{Path: "/w/other.html", Data: "other\n"})
			arg := src
			if r.P(60) {
				arg = relPath(strings.TrimPrefix(sc.Cwd, "/")+"/x", strings.TrimPrefix(src, "/"))
			}
			if r.P(10) {
				sc.Files = append(sc.Files, File{Path: "/w/ln.adoc", Link: src})
				arg = "/w/ln.adoc"
			}
			if r.P(10) {
				sc.Files = append(sc.Files, File{Path: outName("/", src), Link: src})
			}
			spec.Sources = []string{arg}
			switch r.N(6) {
			case 0:
				spec.Out = "-"
			case 1:
				spec.Out = r.Pick("/w/out.html", "out.html", "sub/out.html", "../out.html")
			case 2:
				spec.Out = r.Pick(src, arg, "./"+arg, "/w/../w/"+path.Base(src))
			case 3:
				spec.Out = "/w/lnk.html"
				sc.Files = append(sc.Files, File{Path: "/w/lnk.html", Link: r.Pick(src, "/w/target.html")})
			}
			if r.P(25) {
				sc.Events = append(sc.Events, simos.Event{Op: r.Pick("open", "read", "write", "close", "stat"), Nth: r.R(1, 4), Err: r.Pick("EIO", "EACCES", "ENOSPC")})
			}
			sc.Expect = mustJSON(spec)
			cliScenario(r, sc, spec)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			var spec cliSpec
			if err := json.Unmarshal(sc.Expect, &spec); err != nil {
				return nil, err
			}
			c := clone(sc)
			c.Tasks[0].Ops[0].Args = spec.args()
			res, err := x.Run(c)
			if err != nil {
				return nil, err
			}
			var v []Viol
			allowed := map[string]bool{}
			for _, s := range spec.Sources {
				switch spec.Out {
				case "-":
				case "":
					allowed[outName(sc.Cwd, s)] = true
				default:
					allowed[absPath(sc.Cwd, spec.Out)] = true
				}
			}
			// an output which is a link designates its target
			for k := range allowed {
				for _, f := range sc.Files {
					if f.Path == k && f.Link != "" {
						allowed[absPath(path.Dir(k), f.Link)] = true
					}
				}
			}
			isSource := map[string]bool{}
			for _, s := range spec.Sources {
				p := absPath(sc.Cwd, s)
				isSource[p] = true
				for _, f := range sc.Files {
					if f.Path == p && f.Link != "" {
						isSource[absPath(path.Dir(p), f.Link)] = true
					}
				}
			}
			for k := range allowed {
				if isSource[k] {
					x.Probe("output is the source")
				}
			}
			for p, b := range res.Before {
				a, ok := res.After[p]
				if ok && a == b || strings.HasSuffix(p, "/") {
					continue
				}
				if isSource[p] {
					v = append(v, Viol{"source damaged", fmt.Sprintf("%s (%d bytes) is %d bytes afterwards, exit status %d", p, len(b), len(a), res.Ops[0][0].Exit)})
				} else if !allowed[p] {
					v = append(v, Viol{"other file changed", p})
				}
			}
			for p := range res.After {
				if _, ok := res.Before[p]; !ok && !allowed[p] && !allowed[strings.TrimSuffix(p, "/")] {
					v = append(v, Viol{"other file created", p})
				}
			}
			return v, nil
		},
		Shrink: cliShrink,
	})

	register(&Prop{
		ID: "C23", Quick: 2500, Thorough: 40000,
		Rule: "A case is an invocation of the command that is killed at a seeded step or right before a seeded system call, while outputs of earlier runs (shorter, longer, complete) exist, followed by a second invocation on what the first one left; after the crash each output is the old one or a prefix of the complete one, and after the second run it is complete; sources stay intact.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{Cwd: "/w"}
			spec := cliSpec{Flags: cliFlags(r)}
			n := r.R(1, 2)
			for k := 0; k < n; k++ {
				p := fmt.Sprintf("/w/d%d.adoc", k)
				sc.Files = append(sc.Files, File{Path: p, Data: Text(genCliDoc(r)), Mtime: 1600000000e9})
				spec.Sources = append(spec.Sources, path.Base(p))
			}
			if n == 1 && r.P(40) {
				spec.Out = "/w/out.html"
			}
			old := r.N(4)
			out := "/w/d0.html"
			if spec.Out != "" {
				out = spec.Out
			}
			switch old {
			case 0:
				sc.Files = append(sc.Files, File{Path: out, Data: Text(strings.Repeat("OLD OUTPUT\n", 5000)), Mtime: 1500000000e9})
			case 1:
				sc.Files = append(sc.Files, File{Path: out, Data: "short old\n", Mtime: 1500000000e9})
			}
			if r.P(50) {
				sc.Events = []simos.Event{{Op: r.Pick("write", "write", "write", "open", "read", "close", ""), Nth: r.R(1, 25), Act: "kill"}}
				if r.P(60) {
					sc.Events[0].Path = out
				}
			} else {
				sc.KillStep = int64(1 + r.N([]int{200, 5000, 60000, 400000}[r.N(4)]))
			}
			sc.Expect = mustJSON(spec)
			cliScenario(r, sc, spec)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			var spec cliSpec
			if err := json.Unmarshal(sc.Expect, &spec); err != nil {
				return nil, err
			}
			ref, err := x.cliRef(sc, spec)
			if err != nil {
				return nil, err
			}
			if ro := outcomeOf(ref, &ref.Ops[0][0]); ro.Class != "exit" || ro.Exit != 0 {
				return nil, nil
			}
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			var v []Viol
			outs := map[string]bool{}
			for _, s := range spec.Sources {
				if spec.Out != "" {
					outs[absPath(sc.Cwd, spec.Out)] = true
				} else {
					outs[outName(sc.Cwd, s)] = true
				}
			}
			if res.Killed {
				x.Probe("killed")
			}
			for p, b := range res.Before {
				if !outs[p] && res.After[p] != b {
					v = append(v, Viol{"file damaged by the crash", p})
				}
			}
			for p := range outs {
				a, ok := res.After[p]
				if !ok {
					if _, had := res.Before[p]; had {
						v = append(v, Viol{"output lost in the crash", p})
					}
					continue
				}
				if b, had := res.Before[p]; had && a == b {
					continue
				}
				if !strings.HasPrefix(string(ref.After[p]), string(a)) {
					v = append(v, Viol{"mixed output after the crash", p + ": " + firstDiff(string(a), string(ref.After[p]))})
				} else if len(a) > 0 && a != ref.After[p] {
					x.Probe("torn output left by the crash")
				}
			}
			// second life: a new process on what is left
			c := clone(sc)
			c.Files, c.Events, c.KillStep = res.AfterFiles, nil, 0
			last := x.last
			res2, err := x.Run(c)
			if err != nil {
				return nil, err
			}
			x.last = last
			o := outcomeOf(res2, &res2.Ops[0][0])
			if o.Class != "exit" || o.Exit != 0 {
				v = append(v, Viol{"second run fails", fmt.Sprintf("%s, exit status %d: %s", o.Class, o.Exit, clip(string(o.Stdout), 300))})
			}
			for p := range ref.After {
				if res2.After[p] != ref.After[p] {
					v = append(v, Viol{"wrong output after the second run", p + ": " + firstDiff(string(res2.After[p]), string(ref.After[p]))})
				}
			}
			for p := range res2.After {
				if _, ok := ref.After[p]; !ok {
					v = append(v, Viol{"file left behind", p})
				}
			}
			return v, nil
		},
		Shrink: cliShrink,
	})

	register(&Prop{
		ID: "C21", Quick: 4000, Thorough: 60000,
		Rule: "A case is a conversion from files or a run of the command in which seeded system calls fail, sources are unreadable, inclusions fail half way or macros fail, under a seeded schedule; at the end every file handle that was opened is closed exactly once.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{}
			switch r.W(60, 25, 15) {
			case 0:
				sc.Files = withImages(r, genFiles(r, "/doc", r.R(1, 5)))
				nt := 1
				if r.P(30) {
					nt = 2
				}
				for t := 0; t < nt; t++ {
					op := Op{Kind: "convertfile", Cfg: genCfg(r)}
					op.Cfg.Filename = sc.Files[0].Path
					if r.P(15) {
						op.Cfg.Attrs = append(op.Cfg.Attrs, Attr{"data-uri", ""})
						sc.Files[0].Data += "\n\nimage::pic.png[]\n"
						sc.Files = append(sc.Files, File{Path: "/doc/pic.png", Data: "PNG"})
					}
					if r.P(15) {
						op.W.FailAt = 1 + r.N(500)
					}
					ts := TaskSpec{Ops: []Op{op}}
					if r.P(30) {
						ts.Ops = append(ts.Ops, op)
					}
					sc.Tasks = append(sc.Tasks, ts)
				}
				for k := r.R(0, 3); k > 0; k-- {
					sc.Events = append(sc.Events, genFileEvent(r, sc.Files))
				}
				sc.ShortP = []int{0, 300}[r.N(2)]
				sc.FSSeed = r.U()
				addSched(r, sc)
			case 1:
				sc = genAbuse(r)
			case 2:
				sc.Cwd = "/w"
				spec := cliSpec{Flags: cliFlags(r)}
				for k := r.R(1, 3); k > 0; k-- {
					p := fmt.Sprintf("/w/d%d.adoc", k)
					sc.Files = append(sc.Files, File{Path: p, Data: Text(genCliDoc(r)), Mtime: 1600000000e9})
					spec.Sources = append(spec.Sources, path.Base(p))
				}
				if r.P(30) {
					spec.Out = "o.html"
				}
				if r.P(60) {
					sc.Events = append(sc.Events, simos.Event{Op: r.Pick("open", "read", "write", "close", "stat"), Nth: r.R(1, 6), Err: "EIO"})
				}
				cliScenario(r, sc, spec)
			}
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			if res.Crash != "" || res.Abort != "" {
				return nil, nil // another property
			}
			for i := range res.Ops {
				for j := range res.Ops[i] {
					o := &res.Ops[i][j]
					if o.Kind == "cli" && o.Exit != 0 {
						return nil, nil // the process is gone
					}
				}
			}
			var v []Viol
			if len(res.Handles) > 0 {
				v = append(v, Viol{"file left open", fmt.Sprint(res.Handles)})
			}
			if res.DoubleClose > 0 {
				v = append(v, Viol{"file closed twice", fmt.Sprint(res.DoubleClose)})
			}
			return v, nil
		},
	})

	register(&Prop{
		ID: "C22", Quick: 8000, Thorough: 40000,
		Rule: "A case is a document whose images are embedded as data, with image files that are missing, unreadable, fail at a seeded read, are delivered by short reads or are replaced while the conversion runs; each embedded image has to be the complete content of one version of the file or empty, and empty only together with a warning that names the file.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{Cwd: r.Pick("/", "/doc", "/doc/img")}
			n := r.R(1, 4)
			var b strings.Builder
			b.WriteString(":data-uri:\n")
			dir := ""
			if r.P(30) {
				b.WriteString(":imagesdir: img\n")
				dir = "img/"
			}
			b.WriteString("\n")
			var imgs []string
			for k := 0; k < n; k++ {
				name := fmt.Sprintf("p%d.png", k)
				imgs = append(imgs, "/doc/"+dir+name)
				if r.P(60) {
					fmt.Fprintf(&b, "image::%s[alt%d]\n\n", name, k)
				} else {
					fmt.Fprintf(&b, "text image:%s[alt%d] text\n\n", name, k)
				}
				if r.P(85) {
					sc.Files = append(sc.Files, File{Path: imgs[k], Data: Text(blob(r, k, 0))})
				}
			}
			for k := r.N(3); k > 0; k-- {
				p := imgs[r.N(n)]
				switch r.N(4) {
				case 0:
					sc.Events = append(sc.Events, simos.Event{Op: "open", Path: p, Nth: 1, Err: openErrs[r.N(len(openErrs))]})
				case 1, 2:
					sc.Events = append(sc.Events, simos.Event{Op: "read", Path: p, Nth: r.R(1, 4), Err: "EIO", Partial: r.N(300)})
				case 3:
					sc.Events = append(sc.Events, simos.Event{Op: r.Pick("read", "stat", "open", "close"), Path: p, Nth: r.R(1, 3), Act: "replace", Arg: p, Data: blob(r, 9, 1), Mtime: 1})
				}
			}
			sc.ShortP = []int{0, 400, 900}[r.N(3)]
			sc.FSSeed = r.U()
			op := Op{Kind: "convert", Src: Text(b.String()), Cfg: Cfg{Filename: "/doc/main.adoc", Backend: r.Pick("html5", "xhtml5")}}
			sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
			if r.P(30) {
				sc.Tasks = append(sc.Tasks, TaskSpec{Ops: []Op{op}})
			}
			sc.Expect = mustJSON(imgs)
			addSched(r, sc)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			var imgs []string
			if err := json.Unmarshal(sc.Expect, &imgs); err != nil {
				return nil, err
			}
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			var v []Viol
			for t := range sc.Tasks {
				o := outcomeOf(res, &res.Ops[t][0])
				if o.Class != "ok" {
					v = append(v, Viol{"unreadable image is fatal", o.Class + " " + o.Err + o.Panic})
					continue
				}
				parts := strings.Split(string(o.Out), "data:image/png;base64,")
				if len(parts) != len(imgs)+1 {
					v = append(v, Viol{"image missing", fmt.Sprintf("%d embedded images, want %d", len(parts)-1, len(imgs))})
					continue
				}
				for k, p := range imgs {
					enc := parts[k+1]
					enc = enc[:strings.IndexByte(enc+"\"", '"')]
					data, err := base64.StdEncoding.DecodeString(enc)
					if err != nil {
						v = append(v, Viol{"image damaged", fmt.Sprintf("%s: not base 64: %v", p, err)})
						continue
					}
					if len(data) == 0 {
						x.Probe("image not embedded")
						named := false
						for _, l := range o.Logs {
							named = named || strings.Contains(l, p)
						}
						if !named {
							v = append(v, Viol{"image dropped silently", p})
						}
						if f, ok := fileAt(sc.Files, p); ok && len(f.Data) > 0 && len(res.Faults) == 0 {
							v = append(v, Viol{"image dropped", p})
						}
						continue
					}
					ok := false
					if f, has := fileAt(sc.Files, p); has && string(f.Data) == string(data) {
						ok = true
					}
					for _, e := range sc.Events {
						if e.Act == "replace" && e.Arg == p && e.Data == string(data) {
							ok = true
						}
					}
					if !ok {
						v = append(v, Viol{"image damaged", fmt.Sprintf("%s: %d bytes embedded are not a version of the file", p, len(data))})
					}
				}
			}
			return v, nil
		},
		Shrink: func(sc *Scenario) []*Scenario { return append(shrinkSchedOnly(sc), shrinkEvents(sc)...) },
	})
}

// Pick2 picks one of two numbers
func (r *Rng) Pick2(a, b int) int {
	if r.P(50) {
		return a
	}
	return b
}

// blob is the content of an image, without any part which occurs twice
func blob(r *Rng, k, v int) string {
	n := []int{1, 10, 500, 600, 5000, 40000}[r.N(6)]
	if r.P(5) {
		n = []int{65536, 70000, 300000, 1100000}[r.N(4)]
	}
	n += r.N(4)
	var b strings.Builder
	fmt.Fprintf(&b, "IMG%d.%d:", k, v)
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%d\x7f\x00", i)
	}
	if b.Len() > n && n > 20 {
		return b.String()[:n]
	}
	return b.String()
}

func cliShrink(sc *Scenario) []*Scenario {
	res := append(shrinkSchedOnly(sc), shrinkEvents(sc)...)
	var spec cliSpec
	if json.Unmarshal(sc.Expect, &spec) == nil {
		put := func(s cliSpec) {
			c := clone(sc)
			c.Expect = mustJSON(s)
			c.Tasks[0].Ops[0].Args = s.args()
			res = append(res, c)
		}
		if len(spec.Flags) > 0 {
			s := spec
			s.Flags = nil
			put(s)
		}
		if len(spec.Sources) > 1 {
			for i := range spec.Sources {
				s := spec
				s.Sources = append(append([]string(nil), spec.Sources[:i]...), spec.Sources[i+1:]...)
				put(s)
			}
		}
	}
	for i := range sc.Files {
		if sc.Files[i].Dir || sc.Files[i].Link != "" {
			continue
		}
		for _, t := range textShrinks(string(sc.Files[i].Data)) {
			c := clone(sc)
			c.Files[i].Data = Text(t)
			res = append(res, c)
		}
	}
	return res
}
