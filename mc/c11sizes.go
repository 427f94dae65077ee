package main

import (
	"fmt"
	"strings"

	"verifmc/h"
)

// c11sizes: long tokens, many tokens, far rows and columns.
func c11sizes(ctx *h.Ctx) {
	lens := append(seq(0, pick(ctx, 70, 140)), 99, 100, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4096)
	if !ctx.Thorough() {
		lens = lens[:len(lens)-4]
	}
	after := []string{"", " x", "\ny", "-1", " 5-3", "\"q\"", "/*c*/z", "//c\nz", "$"}
	lexRun(ctx, "tokens of every length", func(y func(string) bool) {
		for _, n := range lens {
			texts := []string{}
			for _, u := range []string{"x", "X", "_", "x1", "if", "true", "x_Y9"} {
				texts = append(texts, strings.Repeat(u, n+1))
			}
			for w := range lexWords {
				texts = append(texts, w+strings.Repeat("1", n), w+strings.Repeat("s", n), strings.Repeat("_", n)+w)
			}
			for _, u := range []string{"a", " ", "é", "\\n", "\\\\", "\\\"", "\\x41", "\\u00e9", "//", "/*", "*/", "`", "1", "漢", "\\101", "$"} {
				texts = append(texts, `"`+strings.Repeat(u, n)+`"`, `"`+strings.Repeat(u, n)+`b"`, `"b`+strings.Repeat(u, n)+`"`, `"`+strings.Repeat(u, n))
			}
			for _, u := range []string{"\\xff", "\\377", "\\x80", "\\200", "\\u20ac", "\\U0001F600", "\\a", "\\t", "\\0", "\\000", "\\x00", "\\'", "\\q", "\\x", "\\400", "\\ud800", "\xff", "é", "\r", "\x00", "'", "\\x7f", "\\x80", "\\xc3\\xa9"} {
				// every kind of character after, before and between n others
				for _, c := range []string{"a", "\\n", "é", "\\xff"} {
					texts = append(texts, `"`+strings.Repeat(c, n)+u+`"`, `"`+u+strings.Repeat(c, n)+`"`, `"`+strings.Repeat(c, n/2)+u+strings.Repeat(c, n-n/2)+u+`"`)
				}
				texts = append(texts, "`"+strings.Repeat("a", n)+u+"`", "`"+u+strings.Repeat("a", n)+"`", "`"+strings.Repeat("é", n)+u+"\n`")
				if n < 40 {
					texts = append(texts, `"`+strings.Repeat(u, n)+`"`)
				}
			}
			for _, u := range []string{"a", "\n", "\\", "\"", "é", "//", "\t", "a\n", "\r\n", "\r"} {
				texts = append(texts, "`"+strings.Repeat(u, n)+"`", "`"+strings.Repeat(u, n)+"\\n`", "`"+strings.Repeat(u, n))
			}
			for _, u := range []string{"c", "*", "\n", "/", " ", "\"", "é", "* ", "/*", "c\n", "\t"} {
				texts = append(texts, "/*"+strings.Repeat(u, n)+"*/")
				if !strings.Contains(u, "\n") {
					texts = append(texts, "//"+strings.Repeat(u, n)+"\n")
				}
			}
			if n < 18 {
				texts = append(texts, "1"+strings.Repeat("0", n), "9"+strings.Repeat("9", n-n/18), "-1"+strings.Repeat("2", n), "1"+strings.Repeat("0", n)+".5")
			}
			for _, t := range texts {
				for _, a := range after {
					if !y(t+a) || n < 40 && !y("a "+t+a) {
						return
					}
				}
			}
		}
	})
	lexRun(ctx, "runs of every token", func(y func(string) bool) {
		for _, n := range lens {
			if n > 300 {
				break
			}
			for _, t := range lexTexts {
				for _, s := range []string{" ", "\n", "", "/*c*/", "\r\n"} {
					if n > 24 && s == "\r\n" || n > 140 && s != " " && s != "\n" {
						continue
					}
					if !y(strings.Repeat(t+s, n)+"x 1") || n < 40 && !y("f("+strings.Repeat(t+s, n)+"-1)") {
						return
					}
				}
			}
		}
	})
	lexRun(ctx, "runs of separators", func(y func(string) bool) {
		for _, n := range lens {
			for _, s := range append(append([]string{}, lexSeps...), "//c\n", "/*c*/", "/*\n*/", "\t ", " \n", "\n ", "\r\n", "/**/", "//\r\n") {
				for _, a := range after {
					if !y("a"+strings.Repeat(s, n)+a) || n < 40 && !y(strings.Repeat(s, n)+"a"+a+strings.Repeat(s, n)) {
						return
					}
				}
			}
		}
	})
	lexRun(ctx, "positions", func(y func(string) bool) {
		rows := []int{0, 1, 2, 3, 5, 9, 10, 50, 99, 100, 127, 128, 254, 255, 256, 300, 999, 1000}
		for _, r := range rows {
			for _, c := range append(rows, 500, 510, 512, 1023, 1024) {
				if r > 300 && c > 300 && !ctx.Thorough() {
					continue
				}
				for k, t := range []string{"x", "\"s\"", "/*c*/1", "`r\nr` y", "$", "\"u", "//", "1 -1"} {
					line := strings.Repeat("a ", c/2)
					if k%2 == 1 {
						line = strings.Repeat(" ", c)
					}
					if !y(strings.Repeat("b\n", r)+line+t+" z\nlast 7\n") || k < 4 && !y(strings.Repeat("/*\n", r/3)+strings.Repeat("*/\n", min(1, r/3))+line+t+" z") ||
						k < 4 && !y("`"+strings.Repeat("\n", r)+"`"+line+t) || k < 4 && !y(strings.Repeat("//c\n", r)+line+t) {
						return
					}
				}
			}
		}
	})
	lexRun(ctx, "numbers", func(y func(string) bool) {
		for e := 0; e < 63; e++ {
			for _, d := range []int64{-1, 0, 1} {
				v := int64(1)<<e + d
				if e == 62 && d == 1 {
					v = 1<<63 - 1
				}
				for _, f := range []string{"%d", "-%d", "x %d", "(-%d)", "%d-1", "%dx", "%d.5", "x[%d:]", "%d/*c*/", "%d//c"} {
					if !y(fmt.Sprintf(f, v)) {
						return
					}
				}
			}
		}
		for n := 0; n < pick(ctx, 2000, 20000); n++ {
			if !y(fmt.Sprintf("%d -%d x%d", n, n+1, n)) {
				return
			}
		}
	})
}
