// Package h is the harness: running scripts, reporting, evidence.
package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/monstermichl/typeshell/converters/bash"
	"github.com/monstermichl/typeshell/converters/batch"
	"github.com/monstermichl/typeshell/transpiler"
)

// Verif is the root of the verification framework.
var Verif = "/verif"

// Ctx is one run of one check.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     int
	Start    time.Time
	Deadline time.Time
	Scratch  string

	States, Trans, Traces, Skipped int64
	Rejected                       int64

	mu         sync.Mutex
	samples    []interface{}
	parts      map[string]*Part
	partOrder  []string
	viol       []string
	violKeys   map[string]bool
	known      map[string]string
	knownSeen  map[string]bool
	assume     []string
	incomplete []string
	stop       int32
	extra      map[string]interface{}
	distinct   map[string]bool
}

type Part struct {
	Name     string
	Elements int64 // enumerated elements
	Complete bool
}

func New(prop, tier string) *Ctx {
	c := &Ctx{Prop: prop, Tier: tier, Seed: 1, Start: time.Now(), parts: map[string]*Part{}, violKeys: map[string]bool{},
		known: map[string]string{}, knownSeen: map[string]bool{}, extra: map[string]interface{}{}, distinct: map[string]bool{}}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &c.Seed)
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		budget = time.Duration(n) * time.Second
	}
	c.Deadline = c.Start.Add(budget)
	base := "/dev/shm"
	if f, err := os.MkdirTemp(base, "verif-mc-"); err == nil {
		c.Scratch = f
	} else if f, err := os.MkdirTemp("", "verif-mc-"); err == nil {
		c.Scratch = f
	} else {
		panic(err)
	}
	os.RemoveAll(filepath.Join(Verif, "replay", prop))
	b, _ := os.ReadFile(filepath.Join(Verif, "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" key=")
		k, what, _ := strings.Cut(rest, " ")
		c.known[k] = what
	}
	return c
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Stop tells generators to cease: deadline passed or enough violations.
func (c *Ctx) Stop() bool {
	return atomic.LoadInt32(&c.stop) != 0 || time.Now().After(c.Deadline)
}
func (c *Ctx) Failed() bool { return atomic.LoadInt32(&c.stop) != 0 }

func (c *Ctx) Sample(s interface{}) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}
func (c *Ctx) Assume(s string)               { c.assume = append(c.assume, s) }
func (c *Ctx) Extra(k string, v interface{}) { c.mu.Lock(); c.extra[k] = v; c.mu.Unlock() }
func (c *Ctx) AddSkipped()                   { atomic.AddInt64(&c.Skipped, 1) }
func (c *Ctx) AddStates(states, trans, traces int) {
	atomic.AddInt64(&c.States, int64(states))
	atomic.AddInt64(&c.Trans, int64(trans))
	atomic.AddInt64(&c.Traces, int64(traces))
}
func (c *Ctx) Distinct(o string) {
	c.mu.Lock()
	if len(c.distinct) < 200000 {
		c.distinct[o] = true
	}
	c.mu.Unlock()
}

// Part registers an enumeration and whether it was completed.
func (c *Ctx) Part(name string, n int64, complete bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := c.parts[name]
	if p == nil {
		p = &Part{Name: name, Complete: true}
		c.parts[name] = p
		c.partOrder = append(c.partOrder, name)
	}
	p.Elements += n
	if !complete {
		p.Complete = false
	}
}

// Violation is a mismatch between model and implementation.
type Violation struct {
	Key   string            // identifies the specific input
	What  string            // one line
	Files map[string]string // replay artefacts
	// Recheck re-executes the case; the mismatch counts only when it shows every time.
	Recheck func() bool
}

func maxViol() int {
	if os.Getenv("VERIF_ALL") != "" {
		return 60
	}
	return 3
}

func (c *Ctx) Report(v Violation) {
	c.mu.Lock()
	if c.violKeys[v.Key] || len(c.viol) >= maxViol() {
		c.mu.Unlock()
		return
	}
	c.violKeys[v.Key] = true
	c.mu.Unlock()
	if v.Recheck != nil {
		for i := 0; i < 3; i++ {
			if !v.Recheck() {
				fmt.Printf("note: mismatch not reproducible, ignored: %s\n", v.What)
				return
			}
		}
	}
	if what, ok := c.known[v.Key]; ok {
		c.mu.Lock()
		c.knownSeen[v.Key] = true
		c.mu.Unlock()
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, what)
		return
	}
	dir := filepath.Join(Verif, "replay", c.Prop, sanitize(v.Key))
	os.MkdirAll(dir, 0755)
	for n, s := range v.Files {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755)
		os.WriteFile(filepath.Join(dir, n), []byte(s), 0644)
	}
	os.WriteFile(filepath.Join(dir, "WHAT"), []byte(v.What+"\n"), 0644)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.viol = append(c.viol, v.What)
	fmt.Printf("  %s\n", v.What)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, dir)
	max := maxViol()
	if len(c.viol) >= max {
		atomic.StoreInt32(&c.stop, 1)
	}
	// after a first confirmed violation, only look a little further
	if d := time.Now().Add(10 * time.Second); d.Before(c.Deadline) && os.Getenv("VERIF_ALL") == "" {
		c.Deadline = d
	}
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	o := b.String()
	if len(o) > 80 {
		o = o[:80]
	}
	if o == "" {
		o = "x"
	}
	return o
}

// Finish writes the evidence and returns the exit status.
func (c *Ctx) Finish() int {
	os.RemoveAll(c.Scratch)
	exh := true
	parts := []map[string]interface{}{}
	for _, n := range c.partOrder {
		p := c.parts[n]
		if !p.Complete {
			exh = false
		}
		parts = append(parts, map[string]interface{}{"enumeration": p.Name, "elements": p.Elements, "complete": p.Complete})
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none")
	}
	cov := map[string]interface{}{
		"states": c.States, "transitions": c.Trans, "traces_validated_against_impl": c.Traces,
		"samples": c.samples, "exhaustive": exh, "enumerations": parts,
		"excluded_as_undefined_by_model": c.Skipped, "rejected_programs_checked": c.Rejected,
		"distinct_observations": len(c.distinct),
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(c.Start).Seconds(), "violations": len(c.viol),
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(Verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(Verif, "evidence", c.Prop+".json"), append(b, '\n'), 0644)
	for _, n := range c.partOrder {
		p := c.parts[n]
		fmt.Printf("  %-52s %9d elements complete=%v\n", p.Name, p.Elements, p.Complete)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d skipped=%d distinct=%d violations=%d %.1fs\n", c.Prop, c.Tier, c.States, c.Trans, c.Traces, c.Skipped, len(c.distinct), len(c.viol), time.Since(c.Start).Seconds())
	if len(c.viol) > 0 {
		return 1
	}
	return 0
}

// Workers is the degree of parallelism.
func Workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	return n
}

// Parallel runs f on every value the generator yields.
func Parallel[T any](c *Ctx, gen func(yield func(T) bool), mk func(w int) func(T)) (n int64, complete bool) {
	ch := make(chan T, 256)
	var wg sync.WaitGroup
	for w := 0; w < Workers(); w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			f := mk(w)
			for v := range ch {
				if c.Failed() {
					continue
				}
				f(v)
			}
		}(w)
	}
	complete = true
	gen(func(v T) bool {
		if c.Stop() {
			complete = false
			return false
		}
		n++
		ch <- v
		return true
	})
	close(ch)
	wg.Wait()
	if c.Failed() {
		complete = false
	}
	return
}

// Conv makes a fresh converter.
func Conv(target string) transpiler.Converter {
	if target == "batch" {
		return batch.New()
	}
	return bash.New()
}

// Transpile runs the real transpiler; panics become errors with Panicked.
type TResult struct {
	Script   string
	Err      error
	Panicked string
}

// PutFile writes a file; "\x00->" and a target make a symbolic link.
func PutFile(path, text string) error {
	os.Remove(path)
	if strings.HasPrefix(text, "\x00->") {
		return os.Symlink(text[3:], path)
	}
	return os.WriteFile(path, []byte(text), 0644)
}

func TranspileFile(path, target string) (r TResult) {
	defer func() {
		if e := recover(); e != nil {
			r.Panicked = fmt.Sprint(e)
			r.Err = fmt.Errorf("panic: %v", e)
			r.Script = ""
		}
	}()
	defer Serial()()
	t := transpiler.New()
	r.Script, r.Err = t.Transpile(path, Conv(target))
	return
}

var serial sync.Mutex
var isSerial = os.Getenv("VERIF_SERIAL") != ""

// Serial keeps transpilations apart in a second run after the runtime ended the
// first one (shared state that is written without synchronisation).
func Serial() func() {
	if !isSerial {
		return func() {}
	}
	serial.Lock()
	return serial.Unlock
}

// Box is a per-worker working area.
type Box struct {
	Dir  string
	Work string
	n    int
}

func (c *Ctx) NewBox(name string) *Box {
	d := filepath.Join(c.Scratch, name)
	b := &Box{Dir: d, Work: filepath.Join(d, "w")}
	if err := os.MkdirAll(b.Work, 0755); err != nil {
		panic(err)
	}
	return b
}

// Transpile writes src to main.tsh and transpiles it.
func (b *Box) Transpile(src, target string) TResult {
	p := filepath.Join(b.Dir, "main.tsh")
	if err := os.WriteFile(p, []byte(src), 0644); err != nil {
		panic(err)
	}
	return TranspileFile(p, target)
}

type BashResult struct {
	Out, Err string
	Exit     int
	Hang     bool
	Overload bool // killed by the wall clock without having used its CPU share
	Truncd   bool
}

type BashOpt struct {
	Stdin string
	Env   []string
	Keep  bool // keep files in the working directory
	Args  []string
	Exec  bool // execute the file itself rather than "bash file"
	User  bool // run as an unprivileged user
}

type capBuf struct {
	bytes.Buffer
	max  int
	over func()
}

func (c *capBuf) Write(p []byte) (int, error) {
	if c.Len()+len(p) > c.max {
		c.over()
		return 0, io.ErrShortWrite
	}
	return c.Buffer.Write(p)
}

const cpuHang = 10 * time.Second

// Bash runs a script with /bin/bash in an empty environment and directory.
func (b *Box) Bash(script string, o BashOpt) (r BashResult) {
	f := filepath.Join(b.Dir, "main.sh")
	if err := os.WriteFile(f, []byte(script), 0755); err != nil {
		panic(err)
	}
	var cmd *exec.Cmd
	if o.Exec {
		cmd = exec.Command(f, o.Args...)
	} else {
		cmd = exec.Command("/bin/bash", append([]string{f}, o.Args...)...)
	}
	cmd.Dir = b.Work
	cmd.Env = o.Env
	if cmd.Env == nil {
		cmd.Env = []string{}
	}
	if o.Stdin != "" {
		cmd.Stdin = strings.NewReader(o.Stdin)
	}
	var once sync.Once
	trunc := int32(0)
	kill := func() {
		once.Do(func() { atomic.StoreInt32(&trunc, 1); syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	}
	so := &capBuf{max: 1 << 20, over: kill}
	se := &capBuf{max: 1 << 20, over: kill}
	cmd.Stdout, cmd.Stderr = so, se
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if o.User {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		r.Overload = true
		r.Err = err.Error()
		return
	}
	timed := int32(0)
	tm := time.AfterFunc(25*time.Second, func() {
		atomic.StoreInt32(&timed, 1)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err := cmd.Wait()
	tm.Stop()
	r.Out, r.Err = so.String(), se.String()
	if cmd.ProcessState != nil {
		r.Exit = cmd.ProcessState.ExitCode()
		if atomic.LoadInt32(&timed) != 0 {
			cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
			if cpu >= cpuHang/2 {
				r.Hang = true
			} else {
				r.Overload = true
			}
		}
	}
	if atomic.LoadInt32(&trunc) != 0 {
		r.Truncd = true
	}
	_ = err
	if !o.Keep {
		b.CleanWork()
	}
	return
}

// CleanWork empties the working directory and returns what was in it.
func (b *Box) CleanWork() []string {
	es, _ := os.ReadDir(b.Work)
	var ns []string
	for _, e := range es {
		ns = append(ns, e.Name())
		os.RemoveAll(filepath.Join(b.Work, e.Name()))
	}
	sort.Strings(ns)
	return ns
}

// Snapshot reads all regular files under the working directory.
func (b *Box) Snapshot() map[string]string {
	m := map[string]string{}
	filepath.Walk(b.Work, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			d, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(b.Work, p)
			m[rel] = string(d)
		}
		return nil
	})
	return m
}
