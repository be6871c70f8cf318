package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx is handed to a property's body for one case.
type Ctx struct {
	nt      bool
	discard bool
	labels  map[string]int
	dir     string // scratch directory of the shard
}

// NT marks the case as non-trivial.
func (c *Ctx) NT() { c.nt = true }

// Label counts a feature of the case.
func (c *Ctx) Label(s string) { c.labels[s]++ }

// harnessBug is an error of the machinery, never a violation.
type harnessBug string

// Prop is an executable property over generated cases.
type Prop struct {
	ID       string
	Rule     string
	Quick    int // cases per run (all shards together)
	Thorough int
	draw     func(t *rapid.T) interface{}
	decode   func(b []byte) (interface{}, error)
	run      func(c interface{}, x *Ctx) error
	level    string
}

var props = map[string]*Prop{}

func register[C any](id string, quick, thorough int, rule string, draw func(t *rapid.T) C, run func(c C, x *Ctx) error) *Prop {
	p := &Prop{ID: id, Quick: quick, Thorough: thorough, Rule: rule, level: "exploration"}
	p.draw = func(t *rapid.T) interface{} { return draw(t) }
	p.decode = func(b []byte) (interface{}, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	p.run = func(c interface{}, x *Ctx) error { return run(c.(C), x) }
	props[id] = p
	return p
}

// execute runs one case; a panic in the code under test is a violation.
func (p *Prop) execute(c interface{}, x *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if hb, ok := r.(harnessBug); ok {
				fmt.Fprintf(os.Stderr, "HARNESS-BUG %s\n%s\n", string(hb), debug.Stack())
				os.Exit(3)
			}
			st := string(debug.Stack())
			if !strings.Contains(st, "signintech/pdft") || strings.Contains(fmt.Sprint(r), "rapid") {
				fmt.Fprintf(os.Stderr, "HARNESS-PANIC %v\n%s\n", r, st)
				os.Exit(3)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(st))
		}
	}()
	return p.run(c, x)
}

func trimStack(s string) string {
	i := strings.Index(s, "panic(")
	if i >= 0 {
		s = s[i:]
	}
	l := strings.Split(s, "\n")
	if len(l) > 14 {
		l = l[:14]
	}
	return strings.Join(l, "\n")
}

type replayFile struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type shardResult struct {
	Evals    int
	NT       int
	Labels   map[string]int
	Samples  []json.RawMessage
	Failed   bool
	Message  string
	Case     json.RawMessage
	Complete bool
}

type fakeTB struct {
	failed bool
	log    bytes.Buffer
}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return "prop" }
func (f *fakeTB) Logf(s string, a ...any)   { fmt.Fprintf(&f.log, s+"\n", a...) }
func (f *fakeTB) Log(a ...any)              { fmt.Fprintln(&f.log, a...) }
func (f *fakeTB) Skipf(s string, a ...any)  { runtime.Goexit() }
func (f *fakeTB) Skip(a ...any)             { runtime.Goexit() }
func (f *fakeTB) SkipNow()                  { runtime.Goexit() }
func (f *fakeTB) Errorf(s string, a ...any) { f.failed = true; f.Logf(s, a...) }
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.Log(a...) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.failed = true; f.Logf(s, a...); runtime.Goexit() }
func (f *fakeTB) Fatal(a ...any)            { f.failed = true; f.Log(a...); runtime.Goexit() }
func (f *fakeTB) FailNow()                  { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }
func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// limits keeps a runaway case from harming the machine.
func limits(race bool) {
	debug.SetMaxStack(64 << 20)
	if !race {
		lim := syscall.Rlimit{Cur: 7 << 29, Max: 7 << 29}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		debug.SetMemoryLimit(1 << 30)
	}
}

type watchdog struct {
	mu    sync.Mutex
	start time.Duration
	began time.Time
	on    bool
}

const cpuLimit = 45 * time.Second

// blockedLimit is for cases that wait for ever without working
const blockedLimit = 150 * time.Second

func (w *watchdog) begin() {
	w.mu.Lock()
	w.start = cpuTime()
	w.began = time.Now()
	w.on = true
	w.mu.Unlock()
}
func (w *watchdog) end() { w.mu.Lock(); w.on = false; w.mu.Unlock() }
func (w *watchdog) loop() {
	for {
		time.Sleep(time.Second)
		w.mu.Lock()
		if w.on && (cpuTime()-w.start > cpuLimit || time.Since(w.began) > blockedLimit && cpuTime()-w.start < 5*time.Second) {
			fmt.Fprintln(os.Stderr, "WATCHDOG: the case did not finish")
			os.Exit(4)
		}
		w.mu.Unlock()
	}
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func shardMain(args []string) {
	fs := flag.NewFlagSet("shard", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	checks := fs.Int("checks", 100, "")
	out := fs.String("out", "", "")
	wall := fs.Float64("wall", 60, "")
	corpus := fs.Bool("corpus", false, "")
	shrink := fs.String("shrink", "20s", "")
	fs.Parse(args)
	p := props[*id]
	limits(raceEnabled)
	deadline := time.Now().Add(time.Duration(*wall * float64(time.Second)))
	res := shardResult{Labels: map[string]int{}}
	distinct := map[uint64]bool{}
	dir := *out + ".d"
	os.MkdirAll(dir, 0o755)
	cur := *out + ".cur"
	w := &watchdog{}
	go w.loop()
	var samples [][]byte
	runCase := func(c interface{}) error {
		b, err := json.Marshal(c)
		if err != nil {
			panic(harnessBug("marshal: " + err.Error()))
		}
		os.WriteFile(cur, b, 0o644)
		x := &Ctx{labels: map[string]int{}, dir: dir}
		w.begin()
		err = p.execute(c, x)
		w.end()
		if !res.Failed && err == nil && !x.discard {
			res.Evals++
			for k := range x.labels {
				res.Labels[k]++
			}
			if x.nt {
				h := hash64(b)
				if !distinct[h] {
					distinct[h] = true
					if len(samples) < 2 || (len(samples) < 6 && res.Evals%50 == 0) {
						samples = append(samples, b)
					}
				}
			}
		}
		if err != nil {
			res.Failed = true
			res.Message = err.Error()
			res.Case = b
		}
		return err
	}
	fail := false
	if *corpus {
		files, _ := filepath.Glob(filepath.Join(corpusDir(), p.ID, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			var rf replayFile
			if err == nil {
				err = json.Unmarshal(b, &rf)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "bad corpus file", f, err)
				os.Exit(3)
			}
			c, err := p.decode(rf.Case)
			if err != nil {
				fmt.Fprintln(os.Stderr, "bad corpus file", f, err)
				os.Exit(3)
			}
			if runCase(c) != nil {
				fail = true
				break
			}
		}
	}
	if !fail {
		testing.Init()
		flag.CommandLine.Parse(nil)
		flag.Set("rapid.checks", strconv.Itoa(*checks))
		flag.Set("rapid.seed", strconv.FormatUint(*seed, 10))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", *shrink)
		tb := &fakeTB{}
		done := make(chan bool)
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				if !res.Failed && time.Now().After(deadline) {
					return
				}
				c := p.draw(t)
				if err := runCase(c); err != nil {
					t.Fatalf("violation")
				}
			})
		}()
		<-done
		if tb.failed && !res.Failed {
			fmt.Fprintf(os.Stderr, "rapid failed without a violation:\n%s\n", tb.log.String())
			os.Exit(3)
		}
	}
	res.NT = len(distinct)
	for _, s := range samples {
		res.Samples = append(res.Samples, s)
	}
	res.Complete = time.Now().Before(deadline)
	var hb bytes.Buffer
	for h := range distinct {
		binary.Write(&hb, binary.LittleEndian, h)
	}
	os.WriteFile(*out+".hash", hb.Bytes(), 0o644)
	b, _ := json.Marshal(res)
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.RemoveAll(dir)
	if res.Failed {
		os.Exit(1)
	}
	os.Exit(0)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}
func corpusDir() string { return filepath.Join(verifDir(), "harness", "corpus") }

func replayMain(args []string) {
	b, err := os.ReadFile(args[0])
	var rf replayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := props[rf.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rf.Property)
		os.Exit(3)
	}
	limits(raceEnabled)
	w := &watchdog{}
	go w.loop()
	dir, _ := os.MkdirTemp("", "pdftreplay")
	n := 20
	if len(args) > 1 {
		n, _ = strconv.Atoi(args[1])
	}
	for i := 0; i < n; i++ {
		c, err := p.decode(rf.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w.begin()
		err = p.execute(c, &Ctx{labels: map[string]int{}, dir: dir})
		w.end()
		if err != nil {
			os.RemoveAll(dir)
			fmt.Printf("property %s is violated: %v\n", rf.Property, err)
			os.Exit(1)
		}
	}
	os.RemoveAll(dir)
	fmt.Println("the case passes")
	os.Exit(0)
}

func knownFindings(id string) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: property="+id+" ") {
			fmt.Println(l)
		}
	}
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	nshards := fs.Int("shards", 8, "")
	scale := fs.Float64("scale", 1, "")
	shrinkTime := fs.String("shrink", "", "")
	fs.Parse(args)
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	total, wall, shrink := p.Quick, 100.0, "20s"
	if *tier == "thorough" {
		total, wall, shrink = p.Thorough, 600.0, "60s"
	}
	total = int(float64(total) * *scale)
	if *shrinkTime != "" {
		shrink = *shrinkTime
	}
	start := time.Now()
	dir, err := os.MkdirTemp("", "pdftcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	code := func() int {
		type done struct {
			i    int
			err  error
			outb []byte
		}
		ch := make(chan done)
		per := (total + *nshards - 1) / *nshards
		var cmds []*exec.Cmd
		for i := 0; i < *nshards; i++ {
			s := (uint64(seed)*1000003+uint64(i)+1)*0x9E3779B97F4A7C15 ^ hash64([]byte(p.ID))
			if s == 0 {
				s = 1
			}
			out := filepath.Join(dir, fmt.Sprintf("s%d", i))
			a := []string{"shard", "-prop", p.ID, "-seed", fmt.Sprint(s), "-checks", fmt.Sprint(per), "-out", out,
				"-wall", fmt.Sprint(wall), "-shrink", shrink}
			if i == 0 {
				a = append(a, "-corpus")
			}
			cmd := exec.Command(os.Args[0], a...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOTRACEBACK=all", "GORACE=halt_on_error=1")
			cmds = append(cmds, cmd)
			go func(i int) {
				b, err := cmd.CombinedOutput()
				ch <- done{i, err, b}
			}(i)
		}
		ev := shardResult{Labels: map[string]int{}}
		distinct := map[uint64]bool{}
		broken := ""
		complete := true
		var vio *replayFile
		for range cmds {
			d := <-ch
			out := filepath.Join(dir, fmt.Sprintf("s%d", d.i))
			b, rerr := os.ReadFile(out)
			var r shardResult
			if rerr == nil && json.Unmarshal(b, &r) == nil {
				ev.Evals += r.Evals
				for k, v := range r.Labels {
					ev.Labels[k] += v
				}
				if len(ev.Samples) < 6 {
					ev.Samples = append(ev.Samples, r.Samples...)
				}
				hb, _ := os.ReadFile(out + ".hash")
				for i := 0; i+8 <= len(hb); i += 8 {
					distinct[binary.LittleEndian.Uint64(hb[i:])] = true
				}
				complete = complete && r.Complete
				if r.Failed && (vio == nil || len(r.Case) < len(vio.Case)) {
					vio = &replayFile{p.ID, r.Message, r.Case}
				}
				continue
			}
			// the shard died: fatal error, watchdog, race report, or our own bug
			tail := string(d.outb)
			if strings.Contains(tail, "HARNESS-BUG") || strings.Contains(tail, "HARNESS-PANIC") || strings.Contains(tail, "rapid failed without") || strings.Contains(tail, "bad corpus file") {
				broken = tail
				continue
			}
			if vio != nil {
				continue
			}
			c, cerr := os.ReadFile(out + ".cur")
			if cerr != nil {
				broken = tail
				continue
			}
			if len(tail) > 6000 {
				tail = tail[:6000]
			}
			rf := &replayFile{p.ID, "the process died: " + fmt.Sprint(d.err) + "\n" + tail, c}
			if !(strings.Contains(tail, "WARNING: DATA RACE") || strings.Contains(tail, "fatal error: concurrent map")) || !strings.Contains(tail, "signintech/pdft") {
				// must be reproducible
				f := filepath.Join(dir, "re.json")
				jb, _ := json.Marshal(rf)
				os.WriteFile(f, jb, 0o644)
				o, err := exec.Command(os.Args[0], "replay", f, "3").CombinedOutput()
				if err == nil {
					broken = "a shard died and the case does not reproduce it:\n" + tail
					continue
				}
				if strings.Contains(string(o), "HARNESS-") {
					broken = string(o)
					continue
				}
			}
			if vio == nil {
				vio = rf
			}
		}
		ev.NT = len(distinct)
		nv := 0
		if vio != nil {
			nv = 1
		}
		if len(ev.Samples) > 6 {
			ev.Samples = ev.Samples[:6]
		}
		var samples []interface{}
		for _, s := range ev.Samples {
			if len(s) > 3000 {
				samples = append(samples, string(s[:3000])+"...")
			} else {
				samples = append(samples, json.RawMessage(s))
			}
		}
		doc := map[string]interface{}{
			"property": p.ID, "tier": *tier, "seed": seed, "level": p.level,
			"coverage": map[string]interface{}{
				"evaluations": ev.Evals, "distinct_nontrivial": ev.NT, "rule": p.Rule, "samples": samples,
				"features": ev.Labels, "planned_cases": total, "all_planned_cases_run": complete && vio == nil,
			},
			"wall_s": time.Since(start).Seconds(), "violations": nv,
			"assumptions": []string{"the reference reader, interpreter and models in /verif/harness are right", "inputs outside the generators' domain (DESIGN.md) are not covered"},
		}
		jb, _ := json.MarshalIndent(doc, "", " ")
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), append(jb, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if vio != nil {
			rd := filepath.Join(verifDir(), "replays")
			os.MkdirAll(rd, 0o755)
			jb, _ := json.MarshalIndent(vio, "", " ")
			path := filepath.Join(rd, fmt.Sprintf("%s-%016x.json", p.ID, hash64(vio.Case)))
			os.WriteFile(path, append(jb, '\n'), 0o644)
			fmt.Printf("%s\n", vio.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			return 1
		}
		if broken != "" {
			fmt.Fprintln(os.Stderr, "the check itself failed:\n"+broken)
			return 2
		}
		knownFindings(p.ID)
		fmt.Printf("%s %s: held on %d cases (%d distinct non-trivial), %.1fs\n", p.ID, *tier, ev.Evals, ev.NT, time.Since(start).Seconds())
		var ks []string
		for k := range ev.Labels {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %s=%d", k, ev.Labels[k])
		}
		fmt.Println()
		return 0
	}()
	os.RemoveAll(dir)
	os.Exit(code)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check|shard|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		checkMain(os.Args[2:])
	case "shard":
		shardMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "solo":
		soloMain(os.Args[2:])
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	}
}
