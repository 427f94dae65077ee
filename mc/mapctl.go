//go:build mapctl

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"syscall"
	"time"
	_ "unsafe"

	"verifmc/h"
)

// The variables live in the runtime's map package (see mapctl.sh).

//go:linkname verifOn internal/runtime/maps.VerifOn
var verifOn bool

//go:linkname verifCount internal/runtime/maps.VerifCount
var verifCount uint64

//go:linkname verifBase internal/runtime/maps.VerifBase
var verifBase uint64

//go:linkname verifAt internal/runtime/maps.VerifAt
var verifAt [4]uint64

//go:linkname verifOff internal/runtime/maps.VerifOff
var verifOff [4]uint64

//go:linkname verifUsed internal/runtime/maps.VerifUsed
var verifUsed [1 << 16]uint64

func controlled(path, target string, base uint64, at, off []uint64) (h.TResult, uint64) {
	for i := range verifAt {
		verifAt[i] = ^uint64(0)
		if i < len(at) {
			verifAt[i], verifOff[i] = at[i], off[i]
		}
	}
	verifBase, verifCount = base, 0
	verifOn = true
	r := h.TranspileFile(path, target)
	verifOn = false
	return r, verifCount
}

func init() { mapOrderMain, ambientMain = mapOrders, ambient }

// world is what a transpilation could see of its surroundings.
type world struct {
	sec  int64
	nsec int32
	env  map[string]*string
	sys  map[string]int
}

// in runs one transpilation in the given world and tells what it looked at.
func (w world) in(path, target string) (string, map[string]bool) {
	asked := map[string]bool{}
	time.VerifNow = func() (int64, int32) { asked["time"] = true; return w.sec, w.nsec }
	syscall.VerifEnv = func(k string) (string, bool, bool) {
		asked["env "+k] = true
		v, ok := w.env[k]
		switch {
		case !ok:
			return "", false, false
		case v == nil:
			return "", false, true
		}
		return *v, true, true
	}
	os.VerifSys = func(k string) (int, bool) {
		asked["sys "+k] = true
		n, ok := w.sys[k]
		return n, ok
	}
	defer func() { time.VerifNow, syscall.VerifEnv, os.VerifSys = nil, nil, nil }()
	r := h.TranspileFile(path, target)
	if r.Err != nil {
		return "error", asked
	}
	return r.Script, asked
}

// ambient runs the transpilation in every world that differs from the real one in one
// respect the transpilation looked at.
func ambient(path, target string) {
	var o mapOrderResult
	want, asked := world{}.in(path, target)
	o.Script = want
	o.Runs = 1
	seen := map[string]bool{}
	try := func(what string, w world) {
		o.Runs++
		s, more := w.in(path, target)
		for k := range more {
			if !seen[k] {
				asked[k] = true
			}
		}
		if s != want && o.Diff == "" {
			o.Diff = s
			o.What = what
		}
	}
	for {
		next := ""
		for k := range asked {
			if !seen[k] {
				next = k
			}
		}
		if next == "" {
			break
		}
		seen[next] = true
		o.Choice++
		switch {
		case next == "time":
			for _, d := range []int64{1, 59, 61, 3600, 43200, 86400, 7 * 86400, 31 * 86400, 366 * 86400, 20000 * 86400, -1, -86400, -3650 * 86400} {
				try(fmt.Sprint("clock ", d), world{sec: d})
			}
			for _, d := range []int32{1, 999, 1000000, 500000000} {
				try("clock", world{nsec: d})
			}
		case len(next) > 4 && next[:4] == "env ":
			try("unset "+next[4:], world{env: map[string]*string{next[4:]: nil}})
			for _, v := range []string{"", "0", "1", "true", "false", "x y", "/tmp", "de_DE.UTF-8", "dumb"} {
				v := v
				try(next[4:]+"="+v, world{env: map[string]*string{next[4:]: &v}})
			}
		case next == "env ":
			for _, v := range []string{"A=1", "HOME=/x"} {
				v := v
				try("environment "+v, world{env: map[string]*string{"": &v}})
			}
		default:
			for n := 0; n < 6; n++ {
				try(next, world{sys: map[string]int{next[4:]: n * n * 7}})
			}
		}
	}
	for k := range seen {
		o.Asked = append(o.Asked, k)
	}
	sort.Strings(o.Asked)
	json.NewEncoder(os.Stdout).Encode(o)
}

// mapOrders explores the iteration orders of every map the transpilation ranges over:
// all iterations rotated alike, every single iteration rotated, and every pair.
func mapOrders(path, target string, pairs bool, limit int) {
	var o mapOrderResult
	ref, n := controlled(path, target, 0, nil, nil)
	o.Iterations = int(n)
	show := func(r h.TResult) string {
		if r.Err != nil {
			return "error"
		}
		return r.Script
	}
	want := show(ref)
	o.Script = want
	type ch struct{ at, off uint64 }
	var choices []ch
	for i := uint64(0); i < n && i < uint64(len(verifUsed)); i++ {
		u := verifUsed[i]
		if u < 2 {
			continue
		}
		o.Choice++
		if u > 8 {
			u = 32
		}
		for k := uint64(1); k < u; k++ {
			choices = append(choices, ch{i, k})
		}
	}
	try := func(base uint64, at, off []uint64) bool {
		if o.Runs >= limit {
			o.Truncated = true
			return false
		}
		o.Runs++
		r, _ := controlled(path, target, base, at, off)
		if s := show(r); s != want && o.Diff == "" {
			o.Diff = s
			o.Where = at
			o.Base = base
			return false
		}
		return true
	}
	done := func() { json.NewEncoder(os.Stdout).Encode(o) }
	for b := uint64(1); b < 32; b++ {
		if !try(b, nil, nil) {
			done()
			return
		}
	}
	for _, c := range choices {
		if !try(0, []uint64{c.at}, []uint64{c.off}) {
			done()
			return
		}
	}
	if pairs {
		for i, c := range choices {
			for _, d := range choices[i+1:] {
				if d.at == c.at {
					continue
				}
				if !try(0, []uint64{c.at, d.at}, []uint64{c.off, d.off}) {
					done()
					return
				}
			}
		}
	}
	done()
}
