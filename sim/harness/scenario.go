//go:build go1.21

package main

import (
	"bufio"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	realos "os"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	texttemplate "text/template"
	"time"
	"unicode/utf8"

	"github.com/davecgh/go-spew/spew"
	log "github.com/sirupsen/logrus"

	"github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
	"github.com/bytesparadise/libasciidoc/verifsim/cli"
	"github.com/bytesparadise/libasciidoc/verifsim/sim"
	"github.com/bytesparadise/libasciidoc/verifsim/simos"
	"github.com/bytesparadise/libasciidoc/verifsim/simtime"
)

// Text is a string which may hold arbitrary bytes
type Text string

// MarshalJSON writes valid UTF-8 as is, anything else in base 64
func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(t))})
}

// UnmarshalJSON reads both forms
func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*t = Text(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["b64"])
	*t = Text(d)
	return err
}

// File is a file of the simulated file system
type File struct {
	Path  string `json:"path"`
	Data  Text   `json:"data"`
	Mtime int64  `json:"mtime,omitempty"` // nanoseconds
	Mode  uint32 `json:"mode,omitempty"`
	Link  string `json:"link,omitempty"`
	Dir   bool   `json:"dir,omitempty"`
}

// ReaderSpec says how the source is delivered
type ReaderSpec struct {
	Mode  string `json:"mode,omitempty"` // "" whole, "byte", "random", "line"
	Seed  uint64 `json:"seed,omitempty"`
	Zeros bool   `json:"zeros,omitempty"`  // (0, nil) now and then
	EOFW  bool   `json:"eofw,omitempty"`   // the last bytes come together with io.EOF
	ErrAt int    `json:"err_at,omitempty"` // 1+offset of a failure
	Err   string `json:"err,omitempty"`
	ErrW  bool   `json:"errw,omitempty"` // the failure comes together with bytes
}

// WriterSpec says how the output is taken
type WriterSpec struct {
	FailAt int    `json:"fail_at,omitempty"` // 1+number of bytes accepted
	Err    string `json:"err,omitempty"`
	Once   bool   `json:"once,omitempty"` // only one call fails; the writer takes everything afterwards
	Late   bool   `json:"late,omitempty"` // fails on the call after the limit is reached, instead of a partial write
}

// MacroSpec is a user macro
type MacroSpec struct {
	Name   string `json:"name"`
	Mode   string `json:"mode,omitempty"` // "" text, "template", "fail", "panic", "yield", "nested"
	FailOn int    `json:"fail_on,omitempty"`
	Src    Text   `json:"src,omitempty"` // nested: what it converts
}

// Attr is an attribute passed through the API
type Attr struct {
	K string      `json:"k"`
	V interface{} `json:"v"`
}

// Cfg describes the configuration given by the caller
type Cfg struct {
	ID          string      `json:"id,omitempty"` // operations with the same ID share one configuration value
	Filename    string      `json:"filename,omitempty"`
	Attrs       []Attr      `json:"attrs,omitempty"`
	AttrMap     string      `json:"attr_map,omitempty"` // configurations with the same name share one attribute map
	CSS         []string    `json:"css,omitempty"`
	Backend     string      `json:"backend,omitempty"`
	HF          bool        `json:"hf,omitempty"`
	LastUpdated int64       `json:"last_updated,omitempty"` // seconds
	Macros      []MacroSpec `json:"macros,omitempty"`
}

// Op is one operation of a host task
type Op struct {
	Kind  string     `json:"kind"` // convert, convertfile, cli, host
	Src   Text       `json:"src,omitempty"`
	R     ReaderSpec `json:"r"`
	W     WriterSpec `json:"w"`
	Cfg   Cfg        `json:"cfg"`
	Args  []string   `json:"args,omitempty"`
	Act   string     `json:"act,omitempty"` // host: chdir, put, overwrite, delete, clearevents, jump, setattr
	Path  string     `json:"path,omitempty"`
	Mtime int64      `json:"mtime,omitempty"`
}

// TaskSpec is a sequence of operations run by one goroutine of the host program
type TaskSpec struct {
	Ops []Op `json:"ops"`
}

// Scenario is everything a simulated run depends on, besides the code
type Scenario struct {
	Prop     string            `json:"prop,omitempty"`
	Kind     string            `json:"kind,omitempty"`
	Seed     uint64            `json:"seed,omitempty"`
	Files    []File            `json:"files,omitempty"`
	Cwd      string            `json:"cwd,omitempty"`
	Env      map[string]string `json:"env,omitempty"`
	EnvAny   string            `json:"env_any,omitempty"`
	Machine  int               `json:"machine,omitempty"`
	Base     int64             `json:"base,omitempty"` // seconds
	Tick     int64             `json:"tick,omitempty"`
	Log      string            `json:"log,omitempty"`
	ShortP   int               `json:"short_p,omitempty"`
	FSSeed   uint64            `json:"fs_seed,omitempty"`
	Sched    sim.Sched         `json:"sched"`
	MaxSteps int64             `json:"max_steps,omitempty"`
	KillStep int64             `json:"kill_step,omitempty"`
	Tasks    []TaskSpec        `json:"tasks"`
	Events   []simos.Event     `json:"events,omitempty"`
	Expect   json.RawMessage   `json:"expect,omitempty"` // what the generator knows about the result
	Rec      bool              `json:"rec,omitempty"`
	SnapOps  bool              `json:"snap_ops,omitempty"` // snapshot of the files at the start of each operation
	WantFS   bool              `json:"want_fs,omitempty"`  // report the files
}

// MacroCall is one execution of a user macro
type MacroCall struct {
	Name    string
	Kind    string
	Value   string
	Attrs   string
	Op      string
	Late    bool
	Foreign bool // not of the configuration of the conversion which ran it
}

// OpResult is the outcome of an operation
type OpResult struct {
	Kind       string
	Class      string // ok, error, panic, pending
	Out        Text
	Err        string
	Panic      string `json:",omitempty"`
	Stack      string `json:",omitempty"`
	Meta       string
	Exit       int
	Stdout     Text
	Stderr     Text
	CfgBefore  string `json:",omitempty"`
	CfgAfter   string `json:",omitempty"`
	LateReads  int
	LateWrites int
	WriteCalls int
	WriteAfter int // write calls after a failure
	ReadErr    bool
	WriteErr   bool
	Read       int
	Macros     []MacroCall `json:",omitempty"`
	Start, End int64
	Files      []File `json:",omitempty"`
	Logs       []string
}

// RunResult is the outcome of a run
type RunResult struct {
	Ops         [][]OpResult
	Crash       string
	Stack       string
	Abort       string
	Killed      bool
	Unsupported string
	Leftover    []string
	Chdirs      int
	ChdirLog    []string
	Setenvs     int
	Handles     []string
	DoubleClose int
	Before      map[string]Text
	After       map[string]Text
	AfterFiles  []File
	Mut         []string
	FSLog       []simos.Op
	Faults      map[string]int
	Logs        []string
	Steps       int64
	Switches    int64
	Preempt     int64
	SelectMulti int64
	MapIters    int64
	PoolMiss    int64
	Stalls      int64
	ClockReads  int64
	Tasks       int
	Hash        uint64
	Occ         []int32 `json:",omitempty"`
	Trace       []sim.Switch
	TraceTrunc  bool
	Races       int
	RaceText    string
	SimNanos    int64
}

type opState struct {
	cfg      *configuration.Configuration
	name     string
	res      *OpResult
	returned bool
}

type simReader struct {
	data  []byte
	pos   int
	spec  ReaderSpec
	rnd   uint64
	op    *opState
	zeros int
	err   error
}

func (r *simReader) rand() uint64 {
	r.rnd += 0x9e3779b97f4a7c15
	z := r.rnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Read delivers the source as the scenario says
func (r *simReader) Read(p []byte) (int, error) {
	sim.Hot()
	if r.op.returned {
		r.op.res.LateReads++
	}
	if len(p) == 0 {
		return 0, nil
	}
	limit := len(r.data)
	if r.spec.ErrAt > 0 && r.spec.ErrAt-1 < limit {
		limit = r.spec.ErrAt - 1
	}
	if r.pos >= limit {
		if r.spec.ErrAt > 0 {
			r.op.res.ReadErr = true
			return 0, r.err
		}
		return 0, io.EOF
	}
	if r.spec.Zeros && r.zeros < 50 && r.rand()%4 == 0 {
		r.zeros++
		return 0, nil
	}
	r.zeros = 0
	n := limit - r.pos
	if n > len(p) {
		n = len(p)
	}
	switch r.spec.Mode {
	case "byte":
		n = 1
	case "random":
		if n > 1 {
			n = 1 + int(r.rand()%uint64(n))
			if r.rand()%3 == 0 && n > 4 {
				n = 1 + int(r.rand()%4)
			}
		}
	case "line":
		for i := 0; i < n; i++ {
			if r.data[r.pos+i] == '\n' {
				n = i + 1
				break
			}
		}
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	r.op.res.Read = r.pos
	if r.pos >= limit {
		if r.spec.ErrAt > 0 && r.spec.ErrW {
			r.op.res.ReadErr = true
			return n, r.err
		}
		if r.spec.ErrAt == 0 && r.spec.EOFW {
			return n, io.EOF
		}
	}
	return n, nil
}

type simWriter struct {
	b    strings.Builder
	spec WriterSpec
	op   *opState
	err  error
}

// Write takes the output as the scenario says
func (w *simWriter) Write(p []byte) (int, error) {
	sim.Hot()
	w.op.res.WriteCalls++
	if w.op.returned {
		w.op.res.LateWrites++
	}
	if w.op.res.WriteErr {
		w.op.res.WriteAfter++
	}
	if w.spec.FailAt > 0 && !(w.spec.Once && w.op.res.WriteErr) {
		room := w.spec.FailAt - 1 - w.b.Len()
		if room < 0 {
			room = 0
		}
		if len(p) > room || (w.spec.Late && room == 0) {
			n := room
			if w.spec.Late && room > 0 {
				n = len(p)
				w.b.Write(p)
				return n, nil
			}
			w.b.Write(p[:n])
			w.op.res.WriteErr = true
			return n, w.err
		}
	}
	w.b.Write(p)
	return len(p), nil
}

type simMacro struct {
	spec  MacroSpec
	run   *runState
	calls int
}

var macroTmpl = texttemplate.Must(texttemplate.New("m").Parse(`<span class="um">{{.Name}}({{.Value}}){{.Attributes.GetAsStringWithDefault "suffix" ""}}</span>`))

// Execute is called by the renderer
func (m *simMacro) Execute(wr io.Writer, data interface{}) error {
	sim.Hot()
	um, _ := data.(*types.UserMacro)
	name := ""
	st := (*opState)(nil)
	if t := sim.OpOf(); t != nil {
		name = t.Name
		st, _ = t.Data.(*opState)
	}
	c := MacroCall{Name: m.spec.Name, Op: name}
	if um != nil {
		c.Kind, c.Value = string(um.Kind), um.Value
		var as []string
		for k, v := range um.Attributes {
			as = append(as, fmt.Sprintf("%s=%v", k, v))
		}
		sort.Strings(as)
		c.Attrs = strings.Join(as, ",")
	}
	if st != nil {
		c.Late = st.returned
		if st.cfg != nil {
			if own, ok := st.cfg.Macros[m.spec.Name].(*simMacro); !ok || own != m {
				c.Foreign = true
			}
		}
		st.res.Macros = append(st.res.Macros, c)
		n := 0
		for _, x := range st.res.Macros {
			if x.Name == m.spec.Name {
				n++
			}
		}
		m.calls = n
	}
	switch m.spec.Mode {
	case "template":
		return macroTmpl.Execute(wr, data)
	case "fail":
		if m.calls == m.spec.FailOn {
			io.WriteString(wr, "<partial>")
			return errors.New("macro failure " + m.spec.Name)
		}
	case "panic":
		if m.calls == m.spec.FailOn {
			panic("macro panic " + m.spec.Name)
		}
	case "nested":
		var b strings.Builder
		_, err := libasciidoc.Convert(strings.NewReader(string(m.spec.Src)), &b, configuration.NewConfiguration(configuration.WithBackEnd("html5")))
		if err != nil {
			return err
		}
		io.WriteString(wr, b.String())
		return nil
	case "yield":
		sim.Gosched()
	}
	_, err := fmt.Fprintf(wr, `<span class="um">%s:%s</span>`, m.spec.Name, c.Value)
	return err
}

type runState struct {
	sc      *Scenario
	fs      *simos.FS
	configs map[string]*configuration.Configuration
	maps    map[string]map[string]interface{}
	css     map[string][]string
	res     *RunResult
	logs    *logSink
}

// logSink receives the log lines
type logSink struct {
	lines []string
	rs    *runState
}

// Write takes a log line
func (l *logSink) Write(p []byte) (int, error) {
	s := strings.TrimRight(string(p), "\n")
	if strings.HasPrefix(s, `{"level":"debug"`) || strings.HasPrefix(s, `{"level":"info"`) || strings.HasPrefix(s, `{"level":"trace"`) {
		return len(p), nil // they hold addresses and durations
	}
	l.lines = append(l.lines, s)
	if t := sim.OpOf(); t != nil {
		if st, ok := t.Data.(*opState); ok {
			st.res.Logs = append(st.res.Logs, s)
		}
	}
	return len(p), nil
}

// raceFormatter keeps the scheduler from preempting a task inside the logger's own lock
type raceFormatter struct{ f log.Formatter }

// Format formats
func (r raceFormatter) Format(e *log.Entry) ([]byte, error) {
	sim.NoPreempt(1)
	defer sim.NoPreempt(-1)
	return r.f.Format(e)
}

func (rs *runState) attrMap(c Cfg) map[string]interface{} {
	m := make(map[string]interface{}, len(c.Attrs))
	for _, a := range c.Attrs {
		m[a.K] = a.value()
	}
	return m
}

// callersCSS is the list of style sheets in a larger array, the rest of which belongs to the caller, too
func callersCSS(c Cfg) []string {
	if c.CSS == nil {
		return nil
	}
	return append(append(make([]string, 0, len(c.CSS)+2), c.CSS...), "/of the caller.css", "/of the caller 2.css")[:len(c.CSS)]
}

// value of the attribute: the numbers of the scenario are integers
func (a Attr) value() interface{} {
	if f, ok := a.V.(float64); ok {
		return int(f)
	}
	return a.V
}

// NewConfiguration builds the configuration in the way of a caller
func (rs *runState) config(c Cfg) *configuration.Configuration {
	if c.ID != "" {
		if cfg := rs.configs[c.ID]; cfg != nil {
			return cfg
		}
	}
	var s []configuration.Setting
	if c.Filename != "" {
		s = append(s, configuration.WithFilename(c.Filename))
	}
	if c.AttrMap != "" {
		m := rs.maps[c.AttrMap]
		if m == nil {
			m = rs.attrMap(c)
			rs.maps[c.AttrMap] = m
		}
		s = append(s, configuration.WithAttributes(m))
	} else {
		for _, a := range c.Attrs {
			s = append(s, configuration.WithAttribute(a.K, a.value()))
		}
	}
	if c.CSS != nil {
		css := rs.css[c.AttrMap]
		if css == nil {
			css = callersCSS(c)
		}
		s = append(s, configuration.WithCSS(css))
	}
	if c.Backend != "" {
		s = append(s, configuration.WithBackEnd(c.Backend))
	}
	s = append(s, configuration.WithHeaderFooter(c.HF))
	if c.LastUpdated != 0 {
		s = append(s, configuration.WithLastUpdated(time.Unix(c.LastUpdated, 0)))
	}
	for _, m := range c.Macros {
		s = append(s, configuration.WithMacroTemplate(m.Name, &simMacro{spec: m, run: rs}))
	}
	cfg := configuration.NewConfiguration(s...)
	if c.ID != "" {
		rs.configs[c.ID] = cfg
	}
	return cfg
}

var dumper = spew.ConfigState{Indent: " ", SortKeys: true, DisablePointerAddresses: true, DisableCapacities: true, DisableMethods: true, SpewKeys: true}

func dumpConfig(c *configuration.Configuration) string {
	names := []string{}
	for k, m := range c.Macros {
		if m, ok := m.(*simMacro); ok {
			k += "=" + m.spec.Name
		}
		names = append(names, k)
	}
	sort.Strings(names)
	return fmt.Sprintf("filename=%q lastupdated=%d wrap=%v css=%q+%q backend=%q macros=%q attributes=%s", c.Filename, c.LastUpdated.UnixNano(), c.WrapInHTMLBodyElement, c.CSS, c.CSS[len(c.CSS):cap(c.CSS)], c.BackEnd, names, dumper.Sdump(c.Attributes))
}

// temporaryError is what a connection gives
type temporaryError struct{ timeout bool }

func (e temporaryError) Error() string {
	if e.timeout {
		return "i/o timeout"
	}
	return "resource temporarily unavailable"
}
func (e temporaryError) Timeout() bool   { return e.timeout }
func (e temporaryError) Temporary() bool { return true }

// errKinds are the errors of readers and writers which code may be tempted to treat in a special way
var errKinds = map[string]error{
	"unexpected EOF": io.ErrUnexpectedEOF,
	"wrapped EOF":    fmt.Errorf("connection lost: %w", io.EOF),
	"EINTR":          &realos.PathError{Op: "io", Path: "/dev/stdx", Err: syscall.EINTR},
	"EAGAIN":         syscall.EAGAIN,
	"EPIPE":          &realos.PathError{Op: "io", Path: "|1", Err: syscall.EPIPE},
	"timeout":        temporaryError{true},
	"temporary":      temporaryError{},
	"deadline":       realos.ErrDeadlineExceeded,
	"closed":         realos.ErrClosed,
	"closed pipe":    io.ErrClosedPipe,
	"no progress":    io.ErrNoProgress,
	"short write":    io.ErrShortWrite,
	"short buffer":   io.ErrShortBuffer,
	"bufio.too long": bufio.ErrTooLong,
	"bufio.final":    bufio.ErrFinalToken,
	"canceled":       context.Canceled,
	"not exist":      &realos.PathError{Op: "io", Path: "/gone", Err: realos.ErrNotExist},
}

func errOr(s, def string) error {
	if e, ok := errKinds[s]; ok {
		return e
	}
	if s == "" {
		s = def
	}
	return errors.New(s)
}

const readFault = "simulated read failure"
const writeFault = "simulated write failure"

// runOp executes one operation inside the simulation
func (rs *runState) runOp(op *Op, st *opState) {
	res := st.res
	res.Kind = op.Kind
	res.Start = sim.Step()
	if rs.sc.SnapOps {
		res.Files = exportFiles(rs.fs)
	}
	defer func() {
		st.returned = true
		res.End = sim.Step()
		if r := recover(); r != nil {
			if e, ok := r.(simos.ExitPanic); ok {
				res.Class = "exit"
				res.Exit = e.Code
				return
			}
			if sim.HasExited() {
				res.Class = "exit"
				return
			}
			res.Class = "panic"
			res.Panic = fmt.Sprint(r)
			res.Stack = string(debug.Stack())
		}
	}()
	switch op.Kind {
	case "convert", "convertfile":
		cfg := rs.config(op.Cfg)
		st.cfg = cfg
		if !sim.RaceEnabled {
			res.CfgBefore = dumpConfig(cfg)
		}
		w := &simWriter{spec: op.W, op: st, err: errOr(op.W.Err, writeFault)}
		defer func() {
			res.Out = Text(w.b.String())
			if !sim.RaceEnabled {
				res.CfgAfter = dumpConfig(cfg)
			}
		}()
		var md types.Metadata
		var err error
		if op.Kind == "convert" {
			r := &simReader{data: []byte(op.Src), spec: op.R, rnd: op.R.Seed, op: st, err: errOr(op.R.Err, readFault)}
			md, err = libasciidoc.Convert(r, w, cfg)
		} else {
			md, err = libasciidoc.ConvertFile(w, cfg)
		}
		if err != nil {
			res.Class = "error"
			res.Err = err.Error()
			return
		}
		b, _ := json.Marshal(md)
		res.Meta = string(b)
		res.Class = "ok"
	case "cli":
		var so, se strings.Builder
		simos.Stdout = simos.NewStd(rs.fs, "/dev/stdout", &so)
		simos.Stderr = simos.NewStd(rs.fs, "/dev/stderr", &se)
		simos.Stdin = simos.NewStd(rs.fs, "/dev/stdin", nil)
		simos.Args = append([]string{"libasciidoc"}, op.Args...)
		realos.Args = append([]string{"libasciidoc"}, op.Args...)
		defer func() {
			res.Stdout = Text(so.String())
			res.Stderr = Text(se.String())
		}()
		cli.Main()
		res.Class = "exit"
		res.Exit = 0
		sim.SetExit(0)
	case "host":
		res.Class = "ok"
		switch op.Act {
		case "chdir":
			rs.fs.Cwd = op.Path
		case "put":
			rs.fs.Put(op.Path, []byte(op.Src), op.Mtime)
		case "overwrite":
			rs.fs.Overwrite(op.Path, []byte(op.Src), op.Mtime)
		case "delete":
			rs.fs.Delete(op.Path)
		case "clearevents":
			rs.fs.ClearEvents()
		case "jump":
			simos.Jump(op.Mtime)
		}
	}
}

func exportFiles(f *simos.FS) []File {
	var res []File
	snap := f.Snapshot()
	for p, d := range snap {
		if strings.HasSuffix(p, "/") {
			res = append(res, File{Path: strings.TrimSuffix(p, "/"), Dir: true})
			continue
		}
		if strings.HasPrefix(d, "-> ") {
			if _, ok := f.Get(p); !ok || f.IsLink(p) {
				res = append(res, File{Path: p, Link: strings.TrimPrefix(d, "-> ")})
				continue
			}
		}
		res = append(res, File{Path: p, Data: Text(d), Mtime: f.Mtime(p), Mode: f.ModeOf(p)})
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Path < res[j].Path })
	return res
}

func buildFS(sc *Scenario) *simos.FS {
	f := simos.NewFS()
	for _, x := range sc.Files {
		switch {
		case x.Link != "":
			f.PutLink(x.Path, x.Link)
		case x.Dir:
			f.MkdirAll(x.Path)
		default:
			f.Put(x.Path, []byte(x.Data), x.Mtime)
		}
	}
	for _, x := range sc.Files {
		if x.Mode != 0 && x.Link == "" {
			f.SetMode(x.Path, realos.FileMode(x.Mode))
		}
	}
	if sc.Cwd != "" {
		f.MkdirAll(sc.Cwd)
		f.Cwd = sc.Cwd
	}
	for k, v := range sc.Env {
		f.Env[k] = v
	}
	f.EnvAny, f.Machine = sc.EnvAny, sc.Machine
	f.ShortP = sc.ShortP
	f.Seed(sc.FSSeed)
	for _, e := range sc.Events {
		f.AddEvent(e)
	}
	return f
}

var lockOnce bool

// RunScenario executes a scenario: one simulated run
func RunScenario(sc *Scenario) *RunResult {
	res := &RunResult{}
	fs := buildFS(sc)
	simos.Install(fs)
	res.Before = textMap(fs.Snapshot())
	base := sc.Base
	if base == 0 {
		base = 1700000000
	}
	tick := sc.Tick
	if tick == 0 {
		tick = 1000
	}
	simtime.Reset(base*1e9, tick)
	rs := &runState{sc: sc, fs: fs, configs: map[string]*configuration.Configuration{}, maps: map[string]map[string]interface{}{}, css: map[string][]string{}, res: res}
	rs.logs = &logSink{rs: rs}
	lvl, err := log.ParseLevel(sc.Log)
	if err != nil {
		lvl = log.WarnLevel
	}
	l := log.StandardLogger()
	if !sim.RaceEnabled && !lockOnce {
		l.SetNoLock()
		lockOnce = true
	}
	l.SetLevel(lvl)
	l.SetOutput(rs.logs)
	l.ExitFunc = simos.Exit
	var fm log.Formatter = &log.JSONFormatter{DisableTimestamp: true}
	if sim.RaceEnabled {
		fm = raceFormatter{fm}
	}
	l.SetFormatter(fm)

	// configurations and attribute maps shared between tasks are made beforehand, by the caller
	for _, t := range sc.Tasks {
		for _, op := range t.Ops {
			if op.Cfg.ID != "" {
				rs.config(op.Cfg)
			} else if op.Cfg.AttrMap != "" && rs.maps[op.Cfg.AttrMap] == nil {
				rs.maps[op.Cfg.AttrMap] = rs.attrMap(op.Cfg)
				rs.css[op.Cfg.AttrMap] = callersCSS(op.Cfg)
			}
		}
	}
	wd := &sim.World{Cfg: sc.Sched, MaxSteps: sc.MaxSteps, KillStep: sc.KillStep, Record: sc.Rec}
	races := sim.RaceErrors()
	res.Ops = make([][]OpResult, len(sc.Tasks))
	for i := range sc.Tasks {
		res.Ops[i] = make([]OpResult, len(sc.Tasks[i].Ops))
		for j := range res.Ops[i] {
			res.Ops[i][j].Class = "pending"
			res.Ops[i][j].Kind = sc.Tasks[i].Ops[j].Kind
		}
	}
	sim.Run(wd, func() {
		for i := range sc.Tasks {
			i := i
			body := func() {
				for j := range sc.Tasks[i].Ops {
					if sim.HasExited() {
						return
					}
					st := &opState{name: fmt.Sprintf("t%d.op%d", i, j), res: &res.Ops[i][j]}
					t := sim.Current()
					t.IsOp = true
					t.Data = st
					rs.runOp(&sc.Tasks[i].Ops[j], st)
				}
			}
			if len(sc.Tasks) == 1 {
				body()
			} else {
				sim.GoTask(fmt.Sprintf("t%d", i), body)
			}
		}
	})
	res.Crash, res.Stack, res.Abort, res.Killed = wd.Crash, wd.CrashStack, wd.Abort, wd.Killed()
	res.Unsupported = sim.UnsupportedUsed
	if res.Abort == "" && !res.Killed && !wd.Exited {
		res.Leftover = wd.Leftover()
	}
	res.Chdirs, res.Setenvs = fs.Chdirs, fs.Setenvs
	for _, o := range fs.Log {
		if o.Op == "chdir" {
			res.ChdirLog = append(res.ChdirLog, o.Path)
		}
	}
	res.Handles = fs.OpenHandles()
	res.DoubleClose = fs.CloseErr
	fs.CloseAll()
	res.After = textMap(fs.Snapshot())
	res.AfterFiles = exportFiles(fs)
	res.Mut = fs.MutOps
	res.FSLog = fs.Log
	res.Faults = fs.FaultCounts()
	res.Logs = rs.logs.lines
	res.Steps, res.Switches, res.Preempt = wd.Steps(), wd.Switches, wd.Preemptions
	res.SelectMulti, res.MapIters, res.PoolMiss, res.Stalls = wd.SelectMulti, wd.MapIters, wd.PoolMiss, wd.Stalls
	res.ClockReads = simtime.Reads
	res.SimNanos = wd.SimTime()
	res.Tasks = wd.Tasks()
	res.Trace, res.TraceTrunc = wd.Trace, wd.TraceTrunc
	for i, w := range wd.Occupancy {
		for b := 0; w != 0; b, w = b+1, w>>1 {
			if w&1 == 1 {
				res.Occ = append(res.Occ, int32(i*64+b))
			}
		}
	}
	res.Races = sim.RaceErrors() - races
	h := wd.Hash
	hs := fnv(fmt.Sprint(res.Crash, res.Abort, res.Killed, res.Leftover, res.Handles, res.Chdirs))
	for i := range res.Ops {
		for j := range res.Ops[i] {
			o := &res.Ops[i][j]
			hs = hs*1099511628211 ^ fnv(o.Class+"\x00"+string(o.Out)+"\x00"+o.Err+"\x00"+o.Panic+"\x00"+o.Meta+"\x00"+fmt.Sprint(o.Exit, o.Start, o.End, o.WriteCalls, o.Read)+string(o.Stdout))
		}
	}
	for _, l := range res.Logs {
		hs = hs*1099511628211 ^ fnv(l)
	}
	res.Hash = h ^ hs
	return res
}

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func textMap(m map[string]string) map[string]Text {
	res := make(map[string]Text, len(m))
	for k, v := range m {
		res[k] = Text(v)
	}
	return res
}
