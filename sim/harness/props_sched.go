//go:build go1.21

package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C01", Quick: 8000, Thorough: 150000,
		Rule: "A case is one document (structured random documents, sources of the test suite and mixtures of them, manpages, documents which fail) with one configuration, converted under a seeded schedule of the internal pipeline, map iteration order, pool behaviour, clock, working directory, environment variables, machine (name, user, processes, number of processors) and log level; the outcome (output bytes, metadata, error, warnings) is compared with the same conversion under the canonical schedule in a fresh process.",
		Gen: func(r *Rng, i int) *Scenario {
			// consecutive cases share a document, so that the reference is shared too
			d := groupRng("C01", i/4)
			sc := &Scenario{}
			if d.P(80) {
				op := genConvert(d)
				if d.P(10) {
					op.Src += Text(manyOf(d))
				}
				op.Cfg.Filename = d.Pick("", "/doc/test.adoc")
				sc.Tasks = []TaskSpec{{Ops: []Op{op}}}
			} else {
				sc.Files = withImages(d, genFiles(d, "/doc", d.R(2, 5)))
				sc.Tasks = []TaskSpec{{Ops: []Op{{Kind: "convertfile", Cfg: genCfg(d)}}}}
				sc.Tasks[0].Ops[0].Cfg.Filename = sc.Files[0].Path
			}
			sc.Sched = genSched(r, len(sc.Tasks[0].Ops[0].Src))
			sc.Base = []int64{0, 1, 1000000000, 4102444800, 1709210000}[r.N(5)]
			sc.Tick = []int64{0, 1, 1000000, 3600 * 1e9}[r.N(4)]
			sc.Cwd = r.Pick("", "/tmp", "/doc", "/doc/a")
			if r.P(60) {
				sc.Machine = r.N(50)
			}
			if r.P(50) {
				// every variable the code may look at has a value
				sc.EnvAny = r.Pick("1", "true", "0", "de_DE.UTF-8", "/tmp", "/doc/a:/doc", "html5", "xhtml5", "America/New_York", "1700000000", "debug")
			}
			sc.Log = r.Pick("", "", "", "error", "info", "debug")
			if sc.Log == "debug" && len(sc.Tasks[0].Ops[0].Src) > 600 {
				sc.Log = "info"
			}
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			ref := *sc
			ref.Cwd, ref.Log = "", ""
			op := sc.Tasks[0].Ops[0]
			want, _, err := x.Ref(&ref, op, nil)
			if err != nil {
				return nil, err
			}
			got := outcomeOf(res, &res.Ops[0][0])
			got.Logs = warnings(got.Logs)
			want.Logs = warnings(want.Logs)
			if d := diffOutcome(got, want, sc.Log != "error"); d != "" {
				return []Viol{{"result depends on the execution", d}}, nil
			}
			return nil, nil
		},
	})

	register(&Prop{
		ID: "C05", Quick: 2500, Thorough: 60000,
		Rule: "A case is 2 to 4 host goroutines, each running 1 to 3 conversions (from memory or from files, some of which fail) with configurations of their own under a seeded interleaving at statement granularity; every outcome is compared with the same conversion alone in a fresh process.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{}
			nt := r.R(2, 4)
			var pool []Op
			for k := r.R(1, 3); k > 0; k-- {
				op := genConvertSmall(r)
				if r.P(15) && len(op.Src) > 0 {
					op.R = ReaderSpec{ErrAt: 1 + r.N(len(op.Src))}
				}
				pool = append(pool, op)
			}
			if r.P(35) {
				sc.Files = withImages(r, genFiles(r, "/doc", r.R(2, 4)))
				op := Op{Kind: "convertfile", Cfg: genCfg(r)}
				op.Cfg.Filename = sc.Files[0].Path
				if r.P(40) {
					sc.Cwd = r.Pick("/doc", "/") // and relative paths
					op.Cfg.Filename = map[string]string{"/doc": "f0.adoc", "/": "doc/f0.adoc"}[sc.Cwd]
				}
				pool = append(pool, op)
				if r.P(50) {
					sc.Files = append(sc.Files, withImages(r, genFiles(r, "/other", r.R(1, 3)))...)
					op := Op{Kind: "convertfile", Cfg: genCfg(r)}
					op.Cfg.Filename = map[string]string{"/doc": "../other/f0.adoc", "/": "other/f0.adoc", "": "/other/f0.adoc"}[sc.Cwd]
					pool = append(pool, op)
				}
			}
			size := 0
			for t := 0; t < nt; t++ {
				var ts TaskSpec
				for k := r.R(1, 3); k > 0; k-- {
					op := pool[r.N(len(pool))]
					ts.Ops = append(ts.Ops, op)
					size += len(op.Src)
				}
				sc.Tasks = append(sc.Tasks, ts)
			}
			sc.Sched = genSched(r, size)
			if sc.Sched.Strategy == "fifo" {
				sc.Sched.Strategy, sc.Sched.Quantum, sc.Sched.HotP = "random", 100, 200
			}
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			var v []Viol
			for i := range sc.Tasks {
				for j, op := range sc.Tasks[i].Ops {
					got := outcomeOf(res, &res.Ops[i][j])
					if op.R.ErrAt > 0 {
						// a failing neighbour: it has to fail, with its own error
						x.Probe("neighbour with failing source")
						if got.Class != "error" || !strings.Contains(got.Err, readFault) {
							v = append(v, Viol{"failing conversion disturbed", fmt.Sprintf("operation %d of task %d: %s %s", j, i, got.Class, got.Err)})
						}
						continue
					}
					want, _, err := x.Ref(sc, op, nil)
					if err != nil {
						return nil, err
					}
					if d := diffOutcome(got, want, true); d != "" {
						v = append(v, Viol{"concurrent conversions interfere", fmt.Sprintf("operation %d of task %d: %s", j, i, d)})
					}
				}
			}
			return v, nil
		},
	})

	register(&Prop{
		ID: "C06", Quick: 700, Thorough: 20000, Race: true,
		Rule: "A case is 2 to 4 host goroutines converting documents concurrently (with separate configurations, or sharing one configuration value or one attribute map) in a build with the race detector, under a seeded schedule; the scheduler hands the processor over without creating happens-before edges, so that only the program's own synchronisation orders accesses. Any report is a violation.",
		Gen: func(r *Rng, i int) *Scenario {
			sc := &Scenario{}
			nt := r.R(1, 4)
			shared := r.P(35)
			cfg := genCfg(r)
			if shared {
				if r.P(70) {
					cfg.ID = "shared"
				} else {
					cfg.AttrMap = "shared" // (and the list of style sheets)
				}
			}
			man := r.P(25) // documents which make the conversion change to another doctype
			if man && r.P(70) {
				cfg.Attrs = append(cfg.Attrs, Attr{"doctype", "manpage"})
			}
			size := 0
			for t := 0; t < nt; t++ {
				var ts TaskSpec
				for k := r.R(1, 2); k > 0; k-- {
					op := genConvertSmall(r)
					if shared {
						op.Cfg = cfg
					}
					if man && r.P(60) {
						op.Src = Text(Manpage(r))
					}
					ts.Ops = append(ts.Ops, op)
					size += len(op.Src)
				}
				sc.Tasks = append(sc.Tasks, ts)
			}
			if r.P(15) {
				sc.Files = withImages(r, genFiles(r, "/doc", r.R(2, 3)))
				op := Op{Kind: "convertfile", Cfg: genCfg(r)}
				op.Cfg.Filename = sc.Files[0].Path
				switch r.N(3) {
				case 0:
					op.Cfg.ID = "files"
				case 1:
					op.Cfg.AttrMap = "files"
				}
				sc.Tasks[0].Ops = append(sc.Tasks[0].Ops, op)
				sc.Tasks = append(sc.Tasks, TaskSpec{Ops: []Op{op}})
				if len(sc.Files) > 1 && r.P(40) {
					op.Cfg.Filename = sc.Files[1].Path // (with ID: the configuration of the others)
					sc.Tasks = append(sc.Tasks, TaskSpec{Ops: []Op{op}})
				}
			}
			sc.Sched = genSched(r, size+3000)
			return sc
		},
		Eval: func(x *Ctx, sc *Scenario) ([]Viol, error) {
			res, err := x.Run(sc)
			if err != nil {
				return nil, err
			}
			if res.Races > 0 {
				return []Viol{{"data race", clip(res.RaceText, 3000)}}, nil
			}
			return nil, nil
		},
	})
}

func warnings(l []string) []string {
	var res []string
	for _, s := range l {
		if strings.Contains(s, `"level":"warning"`) || strings.Contains(s, `"level":"error"`) {
			res = append(res, s)
		}
	}
	return res
}

// genConvertSmall draws a conversion of a small document
func genConvertSmall(r *Rng) Op {
	for {
		op := genConvert(r)
		if len(op.Src) < 1500 {
			return op
		}
		if r.P(40) {
			g := &DocGen{r: r}
			op.Src = Text(g.Doc(r.R(2, 14)))
			op.Cfg.Macros = nil
			return op
		}
	}
}
