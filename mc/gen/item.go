// Package gen enumerates bounded families of TypeShell programs.
package gen

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
)

// Item is one enumerated program. Items with the same Pre may be packed into
// one script; "§" in Body and Funcs is replaced by a number that is unique in
// the script.
type Item struct {
	Pre   string // shared prologue (once per script)
	Body  string
	Solo  bool // never packed (exit status, panic, ...)
	Stdin []string
	Files map[string]string // further source files (module tests)
	Tag   string            // coverage label
}

type Yield func(Item) bool

func subst(s string, n int) string {
	return strings.ReplaceAll(s, "§", fmt.Sprintf("q%d", n))
}

// Text is the stand-alone program of the item.
func (it Item) Text() string { return it.Pre + subst(it.Body, 0) }

// Pack joins several items into one program.
func Pack(items []Item) string {
	var b strings.Builder
	b.WriteString(items[0].Pre)
	for i, it := range items {
		b.WriteString(subst(it.Body, i))
		if len(items) > 1 {
			fmt.Fprintf(&b, "print(\"#%d\")\n", i)
		}
	}
	return b.String()
}

// Key identifies the item.
func (it Item) Key() string {
	t := it.Text()
	h := fnv.New64a()
	h.Write([]byte(t))
	names := []string{}
	for k := range it.Files {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		h.Write([]byte("\x00" + k + "\x00" + it.Files[k]))
	}
	return fmt.Sprintf("%s-%016x", it.Tag, h.Sum64())
}
