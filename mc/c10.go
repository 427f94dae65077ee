package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verifmc/cmdemu"
	"verifmc/gen"
	"verifmc/h"
	"verifmc/ref"
)

// renTmpl is one program whose identifiers are renamed.
type renTmpl struct {
	name    string
	main    string
	files   map[string]string
	stdin   []string
	std     bool // files contains std/
	appless bool // set for programs the reference interpreter predicts completely
	real    bool // expected observation = the one of the original spelling (Bash only)
}

var notUser = map[string]bool{"true": true, "false": true, "nil": true, "bool": true, "int": true, "string": true, "error": true,
	"import": true, "var": true, "func": true, "return": true, "if": true, "else": true, "switch": true, "case": true, "default": true, "for": true, "range": true, "break": true, "continue": true,
	"len": true, "print": true, "input": true, "copy": true, "itoa": true, "exists": true, "read": true, "write": true, "panic": true}

func identStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func identPart(c byte) bool { return identStart(c) || c >= '0' && c <= '9' }

// eachIdent walks over the user identifiers of a program text; f returns the
// new spelling. std tells which aliases belong to library files whose
// functions are not user identifiers.
func eachIdent(src string, f func(string) string) string {
	var b strings.Builder
	aliases := map[string]bool{}
	lib := map[string]bool{}
	prev := byte(0) // last character that is not blank
	prevID := ""
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == '"' || c == '`':
			j := i + 1
			for j < len(src) && src[j] != c {
				if c == '"' && src[j] == '\\' {
					j++
				}
				j++
			}
			b.WriteString(src[i : j+1])
			i = j + 1
			prev = c
		case strings.HasPrefix(src[i:], "//"):
			j := i
			for j < len(src) && src[j] != '\n' {
				j++
			}
			b.WriteString(src[i:j])
			i = j
		case identStart(c):
			j := i
			for j < len(src) && identPart(src[j]) {
				j++
			}
			w := src[i:j]
			k := j
			for k < len(src) && src[k] == ' ' {
				k++
			}
			switch {
			case notUser[w] || prev == '@':
			case k < len(src) && src[k] == '"' && (prev == 0 || prev == '\n' || prev == '(' || prevID == "import"):
				aliases[w] = true // import alias
				if strings.HasPrefix(src[k:], "\"strings\"") {
					lib[w] = true
				}
			case aliases[w] && k < len(src) && src[k] == '.':
			case w == "strings" && k < len(src) && src[k] == '.':
				lib[w] = true
			case prev == '.' && lib[prevID]:
			default:
				w = f(w)
			}
			b.WriteString(w)
			prevID = src[i:j]
			prev = 'a'
			i = j
		default:
			if c == '\n' || c > ' ' {
				prev = c
				if c != '.' {
					prevID = ""
				}
			}
			b.WriteByte(c)
			i++
		}
	}
	return b.String()
}

// slots lists the identifiers in order of appearance.
func (t renTmpl) slots() (l []string) {
	seen := map[string]bool{}
	add := func(s string) string {
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
		return s
	}
	var ns []string
	for n := range t.files {
		if !strings.HasPrefix(n, "std/") {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		eachIdent(t.files[n], add)
	}
	eachIdent(t.main, add)
	return
}

func (t renTmpl) rename(m map[string]string) renTmpl {
	f := func(s string) string {
		if n, ok := m[s]; ok {
			return n
		}
		return s
	}
	r := t
	r.main = eachIdent(t.main, f)
	if t.files != nil {
		r.files = map[string]string{}
		for n, s := range t.files {
			if strings.HasPrefix(n, "std/") {
				r.files[n] = s
			} else {
				r.files[n] = eachIdent(s, f)
			}
		}
	}
	return r
}

func (t renTmpl) check() (*ref.Program, error) {
	if t.files == nil {
		return ref.CheckText(t.main)
	}
	fs := map[string]string{"/m/main.tsh": t.main}
	for k, v := range t.files {
		fs["/m/"+k] = v
	}
	return ref.CheckFiles(ref.Sources{Files: fs, StdDir: "/m/std"}, "/m/main.tsh")
}

var renEnv = []string{"PATH=/usr/bin:/bin", "HOME=/home/u", "USER=u", "LOGNAME=u", "SHELL=/bin/sh", "TERM=dumb", "LANG=C", "TMPDIR=/tmp", "x=env", "X=ENV", "a=env", "b=7", "name=env", "value=env", "i=9", "s=env", "n=3"}

var renWinEnv = map[string]string{"PATH": `C:\Windows\system32`, "PATHEXT": ".COM;.EXE;.BAT", "COMSPEC": `C:\Windows\system32\cmd.exe`, "USERNAME": "u", "TEMP": `C:\Temp`, "TMP": `C:\Temp`, "OS": "Windows_NT",
	"PROMPT": "$P$G", "HOMEPATH": `\Users\u`, "HOMEDRIVE": "C:", "WINDIR": `C:\Windows`, "x": "env", "a": "env", "b": "7", "name": "env", "value": "env", "i": "9", "s": "env", "n": "3"}

var shellNames = strings.Fields(`alias bg bind builtin caller cd command compgen complete compopt declare dirs disown echo enable eval exec exit export fc fg getopts hash help history jobs kill let local logout mapfile popd printf pushd pwd readarray readonly set shift shopt source suspend test times trap type typeset ulimit umask unalias unset wait then elif fi esac select while until do done in function time coproc
BASH BASHOPTS BASHPID BASH_ENV BASH_ALIASES BASH_ARGC BASH_ARGV BASH_ARGV0 BASH_CMDS BASH_COMMAND BASH_LINENO BASH_SOURCE BASH_SUBSHELL BASH_VERSINFO BASH_VERSION BASH_REMATCH COMP_WORDBREAKS COLUMNS COPROC DIRSTACK EPOCHREALTIME EPOCHSECONDS EUID FUNCNAME FUNCNEST GLOBIGNORE GROUPS HISTCMD HOSTNAME HOSTTYPE IFS LINENO LINES LC_ALL LC_CTYPE LANG MACHTYPE MAPFILE OPTARG OPTERR OPTIND OSTYPE PATH PIPESTATUS POSIXLY_CORRECT PPID PS1 PS4 PWD OLDPWD RANDOM READLINE_LINE REPLY SECONDS SHELL SHELLOPTS SHLVL SRANDOM TERM TIMEFORMAT TMOUT TMPDIR UID USER HOME _ __ CDPATH ENV
cat sh ls env sort grep sed true1
assoc attrib call chdir cls cmd color copy1 date del dir endlocal erase exit errorlevel ERRORLEVEL findstr ftype goto if1 md mkdir mklink move not exist defined equ neq lss leq gtr geq off on con nul prn aux com1 lpt1 path pause popd prompt rd rem ren rename rmdir setlocal start title type ver verify vol eof EOF end END enabledelayedexpansion cmdcmdline cmdextversion pathext comspec temp tmp os windir username LF x X a A i I n s b name value main Main init args argc stdin stdout stderr`)

var word = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

// pool collects every name the emitted scripts of a program use, all parts of
// these names, the next numbers of numbered names, and the names of the shells.
func renPool(scripts ...string) []string {
	seen := map[string]bool{}
	var l []string
	add := func(s string) {
		if s != "" && identStart(s[0]) && !seen[s] && !notUser[s] && len(s) < 60 {
			seen[s] = true
			l = append(l, s)
		}
	}
	num := regexp.MustCompile(`^(.*?)([0-9]+)$`)
	for _, s := range scripts {
		for _, w := range word.FindAllString(s, -1) {
			if seen[w] {
				continue
			}
			add(w)
			for i := 1; i < len(w); i++ {
				if w[i-1] == '_' || w[i] == '_' {
					add(w[i:])
					add(w[:i])
				}
			}
			add(strings.TrimLeft(w, "_"))
			if m := num.FindStringSubmatch(w); m != nil {
				n := 0
				fmt.Sscan(m[2], &n)
				for k := 0; k < 3; k++ {
					add(fmt.Sprintf("%s%d", m[1], k))
				}
				add(fmt.Sprintf("%s%d", m[1], n+1))
				add(m[1])
			}
			add(strings.ToUpper(w))
			add(strings.ToLower(w))
		}
	}
	for _, w := range shellNames {
		add(w)
	}
	return l
}

// runtimePool collects the names of the variables which exist while the scripts run
// (many are only built then) and, as names are mangled by a prefix which may depend on
// the spelling, every ending of such a name in every spelling by letter case.
func runtimePool(box *h.Box, t renTmpl, b *renBase) (l []string) {
	names := map[string]bool{}
	if b.win {
		cmdemu.Run(b.batch, cmdemu.Options{Env: renWinEnv, Stdin: t.stdin, MaxSteps: 400000, NoPrompt: true, Names: names})
	}
	r := box.Bash("trap 'compgen -v >&2' EXIT\n"+b.bash, h.BashOpt{Env: renEnv, Stdin: strings.Join(append(append([]string{}, t.stdin...), ""), "\n")})
	for _, w := range strings.Fields(r.Err) {
		if word.FindString(w) == w {
			names[w] = true
		}
	}
	seen := map[string]bool{}
	for _, w := range b.pool {
		seen[w] = true
	}
	add := func(s string) {
		if s != "" && identStart(s[0]) && !seen[s] && !notUser[s] && len(s) < 60 {
			seen[s] = true
			l = append(l, s)
		}
	}
	var ns []string
	for w := range names {
		ns = append(ns, w)
	}
	sort.Strings(ns)
	for _, w := range ns {
		add(w)
		add(strings.ToLower(w))
		for i := 1; i < len(w); i++ {
			if w[i-1] != '_' {
				continue
			}
			e := strings.ToLower(w[i:])
			add(e)
			add(strings.ToUpper(e))
			add(strings.ToUpper(e[:1]) + e[1:])
			if len(e) <= 4 {
				for m := 1; m < 1<<len(e); m++ {
					v := []byte(e)
					for k := range v {
						if m>>k&1 == 1 && v[k] >= 'a' && v[k] <= 'z' {
							v[k] -= 32
						}
					}
					add(string(v))
				}
			}
		}
	}
	return
}

type renJob struct {
	t   *renTmpl
	b   *renBase
	m   map[string]string
	who string
	win bool // the Batch script only
}

type renBase struct {
	slots  []string
	bash   string
	batch  string
	out    ref.Outcome
	obs    string // observed (real)
	win    bool
	pool   []string
	public map[string]bool
}

func renTranspile(box *h.Box, t renTmpl, target string) h.TResult {
	for k, v := range t.files {
		p := filepath.Join(box.Dir, k)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(v), 0644)
	}
	return box.Transpile(t.main, target)
}

func renBash(box *h.Box, t renTmpl, script string) (obs string, ok bool) {
	o := h.BashOpt{Env: renEnv}
	if len(t.stdin) > 0 {
		o.Stdin = strings.Join(t.stdin, "\n") + "\n"
	}
	r := box.Bash(script, o)
	if r.Overload {
		return "", false
	}
	e := r.Err
	if r.Hang || r.Truncd {
		e = "HANG " + e
	}
	return fmt.Sprintf("exit %d\n%s\n--- stderr\n%s", r.Exit, r.Out, e), true
}

func renBatch(t renTmpl, script string) (obs string, ok bool) {
	r := cmdemu.Run(script, cmdemu.Options{Env: renWinEnv, Stdin: t.stdin, MaxSteps: 400000, NoPrompt: true})
	if r.Unsupported != "" {
		return "", false
	}
	e := r.Err
	if r.Hang {
		e = "HANG " + e
	}
	return fmt.Sprintf("exit %d\n%s\n--- stderr\n%s", r.Exit, r.Out, e), true
}

func outcomeText(o ref.Outcome) string {
	return fmt.Sprintf("exit %d\n%s\n--- stderr\n", o.Exit, o.Out)
}

func isPublic(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

// legal tells whether the renaming keeps the program's meaning for the language:
// injective, no capture of other identifiers, visibility kept.
func (b *renBase) legal(m map[string]string) bool {
	used := map[string]bool{}
	for _, s := range b.slots {
		n, ok := m[s]
		if !ok {
			n = s
		}
		if used[n] || notUser[n] || b.public[s] && !isPublic(n) {
			return false
		}
		used[n] = true
	}
	return true
}

func c10(ctx *h.Ctx) {
	setup := ctx.NewBox("ren-base")
	var js []*renTmpl
	bases := map[*renTmpl]*renBase{}
	prep := func(t *renTmpl, box *h.Box) *renBase {
		b := &renBase{slots: t.slots(), public: map[string]bool{}}
		p, err := t.check()
		if err != nil {
			return nil
		}
		if p.Unspec != "" && !t.real {
			return nil
		}
		for _, s := range b.slots {
			// Functions of imported files must stay public.
			if isPublic(s) && t.files != nil {
				b.public[s] = true
			}
		}
		b.out = ref.Run(p, ref.Options{Bits: 32, Stdin: t.stdin, MaxSteps: 200000, NoStates: true, FS: map[string]string{}, App: c10App})
		r1, r2 := renTranspile(box, *t, "bash"), renTranspile(box, *t, "batch")
		if r1.Err != nil || r2.Err != nil {
			return nil
		}
		b.bash, b.batch = r1.Script, r2.Script
		if b.win = !t.real && cmdNeutral(p); b.win {
			_, b.win = renBatch(*t, b.batch)
		}
		if t.real {
			b.obs, _ = renBash(box, *t, b.bash)
		} else if b.out.UB != "" {
			return nil
		} else {
			b.obs = outcomeText(b.out)
		}
		b.pool = renPool(b.bash, b.batch)
		b.pool = append(b.pool, runtimePool(box, *t, b)...)
		return b
	}
	for i := range renTmpls {
		t := &renTmpls[i]
		b := prep(t, setup)
		if b == nil {
			_, err := t.check()
			r1 := renTranspile(setup, *t, "bash")
			r2 := renTranspile(setup, *t, "batch")
			ctx.Report(h.Violation{Key: "template-" + t.name, What: fmt.Sprintf("template %s does not transpile: %v %v (model: %v)", t.name, r1.Err, r2.Err, err), Files: map[string]string{"main.tsh": t.main}})
			continue
		}
		js = append(js, t)
		bases[t] = b
	}
	var rejected, winRuns, winSkip int64
	one := func(box *h.Box, part string, j renJob) {
		t := j.t.rename(j.m)
		if !t.real {
			if p, err := t.check(); err != nil {
				// The language itself may forbid the name; both verdicts are fine then.
				atomic.AddInt64(&rejected, 1)
				return
			} else {
				o := ref.Run(p, ref.Options{Bits: 32, Stdin: t.stdin, MaxSteps: 200000, NoStates: true, FS: map[string]string{}, App: c10App})
				if o.Out != j.b.out.Out || o.Exit != j.b.out.Exit {
					return // not a renaming (e.g. two identifiers were unified)
				}
			}
		}
		for _, target := range []string{"bash", "batch"} {
			if target == "batch" && !j.b.win || target == "bash" && j.win {
				continue
			}
			run := func() (what, script, got string) {
				r := renTranspile(box, t, target)
				if r.Err != nil {
					return "error", "", r.Err.Error()
				}
				var ok bool
				if target == "bash" {
					got, ok = renBash(box, t, r.Script)
				} else {
					got, ok = renBatch(t, r.Script)
				}
				if !ok {
					return "skip", r.Script, ""
				}
				if got != j.b.obs {
					return "differs", r.Script, got
				}
				return "", r.Script, got
			}
			what, script, got := run()
			switch what {
			case "error":
				atomic.AddInt64(&rejected, 1)
			case "skip":
				ctx.AddSkipped()
				atomic.AddInt64(&winSkip, 1)
			case "":
				ctx.AddStates(1, 1, 1)
				ctx.Distinct(script)
				if target == "batch" {
					atomic.AddInt64(&winRuns, 1)
				}
			default:
				files := map[string]string{"main.tsh": t.main, "original.tsh": j.t.main, "script." + target: script, "expected": j.b.obs, "actual": got}
				for k, v := range t.files {
					files[k] = v
				}
				ctx.Report(h.Violation{Key: j.t.name + "-" + target + "-" + key(t.main), What: fmt.Sprintf("[%s/%s] the behaviour of program %q changes when renaming %s", part, target, j.t.name, j.who), Files: files,
					Recheck: func() bool { w, _, _ := run(); return w == "differs" }})
			}
		}
	}
	part := func(name string, g func(y func(renJob) bool)) {
		if ctx.Stop() {
			ctx.Part(name, 0, false)
			return
		}
		t0 := time.Now()
		seen := map[string]bool{}
		n, complete := h.Parallel(ctx, func(y func(renJob) bool) {
			g(func(j renJob) bool {
				if !j.b.legal(j.m) {
					return true
				}
				var ks []string
				for _, s := range j.b.slots {
					if n, ok := j.m[s]; ok && n != s {
						ks = append(ks, s+"→"+n)
					}
				}
				j.who = strings.Join(ks, ", ")
				k := j.t.name + j.who
				if j.win && !j.b.win || len(ks) == 0 || seen[k] {
					return true
				}
				seen[k] = true
				return y(j)
			})
		}, func(w int) func(renJob) {
			box := ctx.NewBox(fmt.Sprintf("ren-%d", w))
			return func(j renJob) { one(box, name, j) }
		})
		ctx.Part(name, n, complete)
		ctx.Extra("seconds: "+name, float64(int(time.Since(t0).Seconds()*10))/10)
	}
	// variants of a candidate that suit the slot
	suit := func(b *renBase, slot, n string) string {
		if b.public[slot] && !isPublic(n) {
			return strings.ToUpper(n[:1]) + n[1:]
		}
		return n
	}
	part("the original programs", func(y func(renJob) bool) {
		for _, t := range js {
			b := bases[t]
			m := map[string]string{}
			for i, s := range b.slots {
				m[s] = suit(b, s, fmt.Sprintf("neutral%d", i))
				if b.public[s] {
					m[s] = fmt.Sprintf("Neutral%d", i)
				}
			}
			if !y(renJob{t: t, b: b, m: m}) {
				return
			}
		}
	})
	full := ctx.Thorough()
	part("every identifier x every dangerous name", func(y func(renJob) bool) {
		for _, t := range js {
			b := bases[t]
			for _, s := range b.slots {
				for _, n := range b.pool {
					if !y(renJob{t: t, b: b, m: map[string]string{s: suit(b, s, n)}, win: !full}) {
						return
					}
				}
			}
		}
	})
	part("all identifiers at once, every rotation of the dangerous names", func(y func(renJob) bool) {
		for _, t := range js {
			b := bases[t]
			strides := []int{3}
			if full {
				strides = []int{1, 2, 3, 5, 7, 11, 37}
			}
			for _, st := range strides {
				for r := range b.pool {
					m := map[string]string{}
					for k, s := range b.slots {
						m[s] = suit(b, s, b.pool[(r+k*st)%len(b.pool)])
					}
					if !y(renJob{t: t, b: b, m: m}) {
						return
					}
				}
			}
		}
	})
	part("names that only differ in case", func(y func(renJob) bool) {
		long := strings.Repeat("a", 80)
		var ps [][2]string
		for _, p := range []int{0, 1, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 79} {
			ps = append(ps, [2]string{long, long[:p] + "A" + long[p+1:]})
		}
		ps = append(ps, [][2]string{{"ab", "Ab"}, {"ab", "aB"}, {"ab", "AB"}, {"Ab", "aB"}, {"AB", "aB"}, {"x", "X"}, {"_x", "_X"}, {"x_", "X_"}, {"v_x", "V_x"}, {"V_x", "v_X"}, {"f1_x", "F1_x"}, {long[:64] + "Ab", long[:64] + "aB"}}...)
		for _, t := range js {
			b := bases[t]
			for i, s1 := range b.slots {
				for k, s2 := range b.slots {
					if i == k {
						continue
					}
					for x, p := range ps {
						if !y(renJob{t: t, b: b, m: map[string]string{s1: suit(b, s1, p[0]), s2: suit(b, s2, p[1])}, win: !full && (x != 14 || i > k)}) {
							return
						}
					}
				}
			}
		}
	})
	part("long names that only differ in one place", func(y func(renJob) bool) {
		lens := []int{1, 2, 4, 7, 8, 12, 15, 16, 20, 24, 28, 30, 31, 32, 36, 40, 48, 56, 60, 63, 64, 80, 100, 127, 128, 160, 200, 255, 256}
		if ctx.Thorough() {
			lens = append(seq(1, 130), 160, 200, 254, 255, 256, 257, 300, 511, 512, 1000)
		}
		for _, t := range js {
			b := bases[t]
			for _, n := range lens {
				for shape := 0; shape < 4; shape++ {
					m := map[string]string{}
					for k, s := range b.slots {
						d := fmt.Sprintf("%c%c", 'a'+k/26%26, 'a'+k%26)
						v := ""
						switch shape {
						case 0: // the end differs
							v = strings.Repeat("x", n) + d
						case 1: // the start differs
							v = d + strings.Repeat("x", n)
						case 2: // the middle differs, only in case
							c := []byte(strings.Repeat("y", 7))
							for j := range c {
								if k>>j&1 == 1 {
									c[j] = 'Y'
								}
							}
							v = strings.Repeat("x", n) + string(c) + strings.Repeat("z", n)
						case 3: // the length differs
							v = strings.Repeat("x", n+k)
						}
						m[s] = suit(b, s, v)
					}
					if !y(renJob{t: t, b: b, m: m, win: !full && shape%2 == 1}) {
						return
					}
				}
			}
		}
	})
	crit := []string{"a", "A", "v_a", "f1_a", "a_0"}
	if ctx.Thorough() {
		crit = []string{"a", "A", "a_", "_a", "v_a", "v1_a", "fn_a", "f1_a", "f0_v_a", "f1_v_a", "a_0", "a0", "a_len", "len_a", "_h0", "_rv0", "_fa0", "_dv1", "_dvc", "m_a", "vm_a"}
	}
	part("pairs of identifiers x pairs of related names", func(y func(renJob) bool) {
		for _, t := range js {
			b := bases[t]
			for i, s1 := range b.slots {
				for k, s2 := range b.slots {
					if i == k {
						continue
					}
					for _, n1 := range crit {
						for _, n2 := range crit {
							if n1 != n2 && !y(renJob{t: t, b: b, m: map[string]string{s1: suit(b, s1, n1), s2: suit(b, s2, n2)}, win: !full && n1 != "a"}) {
								return
							}
						}
					}
				}
			}
		}
	})
	part("one identifier named like another one is mangled", func(y func(renJob) bool) {
		// second order: after s1 was renamed, s2 takes each new name of the scripts
		for _, t := range js {
			b := bases[t]
			names := []string{"zz", "Zz", "_h0", "x_y"}
			for _, s1 := range b.slots {
				for _, n1 := range names {
					n1 = suit(b, s1, n1)
					m := map[string]string{s1: n1}
					if !b.legal(m) {
						continue
					}
					r := t.rename(m)
					var ps []string
					old := map[string]bool{}
					for _, w := range b.pool {
						old[w] = true
					}
					for _, tg := range []string{"bash", "batch"} {
						x := renTranspile(setup, r, tg)
						if x.Err == nil {
							ps = append(ps, x.Script)
						}
					}
					for _, w := range renPool(ps...) {
						if old[w] {
							continue
						}
						for _, s2 := range b.slots {
							if s2 != s1 && !y(renJob{t: t, b: b, m: map[string]string{s1: n1, s2: suit(b, s2, w)}, win: !full}) {
								return
							}
						}
					}
				}
			}
		}
	})
	part("permutations of the program's own names", func(y func(renJob) bool) {
		for _, t := range js {
			b := bases[t]
			rev := map[string]string{}
			for i, s := range b.slots {
				rev[s] = b.slots[len(b.slots)-1-i]
			}
			if !y(renJob{t: t, b: b, m: rev}) {
				return
			}
			for i, s1 := range b.slots {
				rot := map[string]string{}
				for k, s := range b.slots {
					rot[s] = b.slots[(k+i)%len(b.slots)]
				}
				if !y(renJob{t: t, b: b, m: rot}) {
					return
				}
				for k := i + 1; k < len(b.slots); k++ {
					if !y(renJob{t: t, b: b, m: map[string]string{s1: b.slots[k], b.slots[k]: s1}}) {
						return
					}
				}
			}
		}
	})
	c10gens(ctx, part, prep)
	ctx.Extra("renamings the transpiler or the language rejects", rejected)
	ctx.Extra("Batch scripts executed in the cmd.exe model", winRuns)
	ctx.Extra("Batch scripts outside the cmd.exe model", winSkip)
	ctx.Extra("programs", len(js))
}

// c10gens renames the identifiers of generated programs (packs of them).
func c10gens(ctx *h.Ctx, part func(string, func(func(renJob) bool)), prep func(*renTmpl, *h.Box) *renBase) {
	box := ctx.NewBox("ren-gen")
	rots := pick(ctx, 3, 12)
	packed := 12
	fam := func(name string, g func(gen.Yield) bool) {
		part(name, func(y func(renJob) bool) {
			n := 0
			emit := func(its []gen.Item) bool {
				n++
				text := its[0].Text()
				if len(its) > 1 {
					text = gen.Pack(its)
				}
				t := &renTmpl{name: fmt.Sprintf("%s %d", name, n), main: text, files: its[0].Files, stdin: its[0].Stdin}
				if p, err := t.check(); err != nil || p.Unspec != "" {
					if len(its) > 1 {
						return true
					}
					ctx.AddSkipped()
					return true
				}
				b := prep(t, box)
				if b == nil {
					ctx.AddSkipped()
					return true
				}
				for r := 0; r < rots; r++ {
					m := map[string]string{}
					for k, s := range b.slots {
						nn := b.pool[(r*len(b.pool)/rots+n*7+k)%len(b.pool)]
						if b.public[s] && !isPublic(nn) {
							nn = strings.ToUpper(nn[:1]) + nn[1:]
						}
						m[s] = nn
					}
					if !y(renJob{t: t, b: b, m: m}) {
						return false
					}
				}
				return true
			}
			pend := map[string][]gen.Item{}
			var order []string
			ok := g(func(it gen.Item) bool {
				if it.Solo || len(it.Files) > 0 || len(it.Stdin) > 0 {
					return emit([]gen.Item{it})
				}
				if !c10ok(it) {
					return true
				}
				if pend[it.Pre] == nil {
					order = append(order, it.Pre)
				}
				pend[it.Pre] = append(pend[it.Pre], it)
				if l := pend[it.Pre]; len(l) >= packed {
					pend[it.Pre] = []gen.Item{}
					return emit(l)
				}
				return true
			})
			for _, o := range order {
				if ok && len(pend[o]) > 0 {
					ok = emit(pend[o])
				}
			}
		})
	}
	fam("statement trees", func(y gen.Yield) bool { return gen.StmtTrees(gen.NewStmtGen(), 1, 2, 3, true, y) })
	fam("call trees", func(y gen.Yield) bool { return gen.CallTrees(pick(ctx, 2, 3), y) })
	if ctx.Thorough() {
		rots, packed = 3, 24
		fam("variable isolation", func(y gen.Yield) bool { return gen.Isolation(false, y) })
		rots, packed = 12, 12
	}
	fam("simultaneous assignments", func(y gen.Yield) bool { return gen.Simultaneous(false, y) })
	fam("import graphs", func(y gen.Yield) bool { return gen.Graphs(1, false, y) && gen.Graphs(2, ctx.Thorough(), y) })
	fam("module call positions", func(y gen.Yield) bool { return gen.CallPositions(false, y) })
	c10more(ctx, fam)
}

// c10ok drops items the model rejects or leaves open.
func c10ok(it gen.Item) bool {
	p, err := ref.CheckText(it.Text())
	if err != nil || p.Unspec != "" {
		return false
	}
	o := ref.Run(p, ref.Options{Bits: 32, MaxSteps: 3000, NoStates: true, App: c10App})
	return o.UB == ""
}
