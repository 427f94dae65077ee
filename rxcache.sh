#!/bin/bash
# rxcache.sh DIR : writes DIR/overlay.json, a build overlay in which the
# standard library's regexp.Compile remembers its results. The lexer compiles
# its expressions for every token; remembering them changes nothing but speed.
R=$(go env GOROOT)/src/regexp/regexp.go
D=$1
mkdir -p "$D" || exit 1
T=$(mktemp "$D/rx.XXXXXX")
awk '
/^func Compile\(expr string\) \(\*Regexp, error\) \{$/ && !d { print "func compileAnew(expr string) (*Regexp, error) {"; d = 1; next }
{ print }
END { if (!d) exit 1 }' "$R" > "$T" || { rm -f "$T"; exit 1; }
cat >> "$T" <<'G'

var compiled sync.Map
var compiledSize int

// Compile remembers the compiled expressions.
func Compile(expr string) (*Regexp, error) {
	if v, ok := compiled.Load(expr); ok {
		re := *v.(*Regexp)
		return &re, nil
	}
	re, err := compileAnew(expr)
	if err == nil && len(expr) < 400 && compiledSize < 1000 {
		compiledSize++
		cp := *re
		compiled.Store(expr, &cp)
	}
	return re, err
}
G
cmp -s "$T" "$D/regexp.go" && rm -f "$T" || mv "$T" "$D/regexp.go"
printf '{"Replace": {"%s": "%s"}}\n' "$R" "$D/regexp.go" > "$D/overlay.json.$$" && mv "$D/overlay.json.$$" "$D/overlay.json"
