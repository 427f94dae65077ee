package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verifmc/h"
)

// wjob is one source tree given to a worker process.
type wjob struct {
	Files map[string][]byte // written below the worker's directory
	Dirs  []string
	Main  string // relative to the directory; used as given when Raw
	Raw   bool
	Tgts  []string
}

type wans struct {
	Script, Err, Panic []string // per target; Err is "" when there was none
	NoErr              []bool
	Bytes              []int
}

// workerMain serves jobs on stdin until it is closed.
func workerMain(dir string) {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(200)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	n := 0
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j wjob
		if err := json.Unmarshal(line, &j); err != nil {
			panic(err)
		}
		n++
		d := filepath.Join(dir, "j")
		for name, b := range j.Files {
			p := filepath.Join(d, name)
			os.MkdirAll(filepath.Dir(p), 0755)
			os.WriteFile(p, b, 0644)
		}
		for _, name := range j.Dirs {
			os.MkdirAll(filepath.Join(d, name), 0755)
		}
		os.MkdirAll(d, 0755)
		m := filepath.Join(d, j.Main)
		if j.Raw {
			m = j.Main
		}
		var a wans
		for _, t := range j.Tgts {
			r := h.TranspileFile(m, t)
			a.Bytes = append(a.Bytes, len(r.Script))
			a.Panic = append(a.Panic, r.Panicked)
			a.NoErr = append(a.NoErr, r.Err == nil)
			e := ""
			if r.Err != nil {
				e = r.Err.Error()
			}
			a.Err = append(a.Err, e)
		}
		if len(j.Files) > 1 || len(j.Dirs) > 0 {
			os.RemoveAll(d)
		}
		if err := out.Encode(a); err != nil {
			return
		}
	}
}

// worker is a transpiling child process.
type worker struct {
	dir string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *strings.Builder
}

func newWorker(dir string) *worker { return &worker{dir: dir} }

func (w *worker) start() {
	os.RemoveAll(w.dir)
	os.MkdirAll(w.dir, 0755)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	w.cmd = exec.Command(exe, "worker", w.dir)
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	w.err = &strings.Builder{}
	w.cmd.Stderr = &limited{w.err, 4000}
	w.in, _ = w.cmd.StdinPipe()
	o, _ := w.cmd.StdoutPipe()
	w.out = bufio.NewReaderSize(o, 1<<20)
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		panic(err)
	}
}

type limited struct {
	b *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func (w *worker) stop() {
	if w.cmd != nil {
		w.in.Close()
		w.cmd.Process.Kill()
		w.cmd.Wait()
		w.cmd = nil
	}
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	s = s[strings.LastIndexByte(s, ')')+1:]
	var u, k float64
	f := strings.Fields(s)
	if len(f) > 13 {
		fmt.Sscan(f[11], &u)
		fmt.Sscan(f[12], &k)
	}
	return (u + k) / 100
}

// do transpiles the job; death describes a crashed or endless worker.
func (w *worker) do(j wjob, cpuLimit float64) (a wans, death string) {
	if w.cmd == nil {
		w.start()
	}
	b, _ := json.Marshal(j)
	start := cpuSeconds(w.cmd.Process.Pid)
	hang := int32(0)
	done := make(chan struct{})
	pid := w.cmd.Process.Pid
	proc := w.cmd.Process
	go func() {
		t := time.NewTicker(500 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				if c := cpuSeconds(pid); c-start > cpuLimit {
					atomic.StoreInt32(&hang, 1)
					proc.Kill()
					return
				}
			}
		}
	}()
	_, err := w.in.Write(append(b, '\n'))
	var line []byte
	if err == nil {
		line, err = w.out.ReadBytes('\n')
	}
	close(done)
	if err != nil {
		w.cmd.Wait()
		state := w.cmd.ProcessState.String()
		e := w.err.String()
		w.cmd = nil
		if atomic.LoadInt32(&hang) != 0 {
			return a, fmt.Sprintf("still running after %.0f s of CPU time", cpuLimit)
		}
		if i := strings.IndexByte(e, '\n'); i > 0 {
			e = e[:i]
		}
		return a, "transpiler process died (" + state + "): " + e
	}
	json.Unmarshal(line, &a)
	return a, ""
}
