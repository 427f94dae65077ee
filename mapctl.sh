#!/bin/bash
# mapctl.sh OUT : builds the checker on a copy of the runtime's map package whose
# iteration start is chosen by the explorer instead of at random; the clock, the
# environment variables, the host name and the process and user numbers are the
# explorer's as well.
cd "$(dirname "$0")/mc" || exit 1
D="$1.d"
mkdir -p "$D"
R="$(go env GOROOT)/src/internal/runtime/maps"
python3 - "$R" "$D" <<'P' || exit 1
import sys,json
r,d=sys.argv[1:]
t=open(r+"/table.go").read()
if t.count("it.entryOffset = rand()")!=1 or t.count("it.dirOffset = rand()")!=1: sys.exit(1)
t=t.replace("it.entryOffset = rand()","it.entryOffset = verifStart(m.used)").replace("it.dirOffset = rand()","it.dirOffset = verifDir()")
t+='''
var VerifOn bool
var VerifCount, VerifBase uint64
var VerifAt, VerifOff [4]uint64
var VerifUsed [1 << 16]uint64

func verifStart(used uint64) uint64 {
	if !VerifOn {
		return rand()
	}
	n := VerifCount
	VerifCount++
	if n < uint64(len(VerifUsed)) {
		VerifUsed[n] = used
	}
	for i := range VerifAt {
		if VerifAt[i] == n {
			return VerifOff[i]
		}
	}
	return VerifBase
}

func verifDir() uint64 {
	if !VerifOn {
		return rand()
	}
	return 0
}
'''
open(d+"/table.go","w").write(t)
m=open(r+"/map.go").read()
m=m.replace("m.seed = uintptr(rand())","m.seed = verifSeed()")
m+='''
func verifSeed() uintptr {
	if !VerifOn {
		return uintptr(rand())
	}
	return 1
}
'''
open(d+"/map.go","w").write(m)
rep={r+"/table.go":d+"/table.go",r+"/map.go":d+"/map.go"}
g=r[:-len("/internal/runtime/maps")]
def edit(f,name,pairs,tail):
    t=open(g+"/"+f).read()
    for a,b in pairs:
        if t.count(a)!=1: sys.exit(1)
        t=t.replace(a,b)
    open(d+"/"+name,"w").write(t+tail)
    rep[g+"/"+f]=d+"/"+name
a="	sec, nsec, mono := runtimeNow()\n	if mono == 0 {"
edit("time/time.go","time.go",[("func Now() Time {\n"+a,"func Now() Time {\n	sec, nsec, mono := runtimeNow()\n	if VerifNow != nil {\n		s, n := VerifNow()\n		sec += s\n		nsec = (nsec + n) % 1000000000\n		return Time{uint64(nsec), sec + unixToInternal, Local}\n	}\n	if mono == 0 {")],"\nvar VerifNow func() (int64, int32)\n")
edit("syscall/env_unix.go","env_unix.go",[("func Getenv(key string) (value string, found bool) {\n","func Getenv(key string) (value string, found bool) {\n	if VerifEnv != nil {\n		if v, f, use := VerifEnv(key); use {\n			return v, f\n		}\n	}\n"),("func Environ() []string {\n","func Environ() []string {\n	if VerifEnv != nil {\n		if v, _, use := VerifEnv(\"\"); use {\n			return []string{v}\n		}\n	}\n")],"\nvar VerifEnv func(string) (string, bool, bool)\n")
edit("os/sys.go","sys.go",[("	return hostname()","	if VerifSys != nil {\n		if n, use := VerifSys(\"hostname\"); use {\n			return \"host\" + string(rune('a'+n)), nil\n		}\n	}\n	return hostname()")],"\nvar VerifSys func(string) (int, bool)\n")
h="	if VerifSys != nil {\n		if n, use := VerifSys(\"%s\"); use {\n			return n\n		}\n	}\n"
edit("os/exec.go","exec.go",[("func %s() int { return syscall.%s() }"%(f,f),"func %s() int {\n%s	return syscall.%s()\n}"%(f,h%f.lower(),f)) for f in ("Getpid","Getppid")],"")
edit("os/proc.go","proc.go",[("func %s() int { return syscall.%s() }"%(f,f),"func %s() int {\n%s	return syscall.%s()\n}"%(f,h%f.lower(),f)) for f in ("Getuid","Geteuid","Getgid","Getegid")],"")
json.dump({"Replace":rep},open(d+"/overlay.json","w"))
P
go build -overlay "$D/overlay.json" -tags mapctl -ldflags=-checklinkname=0 -o "$1" .
rc=$?
rm -f "$D"/*.go "$D/overlay.json"
rmdir "$D"
exit $rc
