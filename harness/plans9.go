package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Long texts in the notation and large documents for the examples.

func init() {
	name := func(n int) string { return "N" + strings.Repeat("a1-Z", n/4) }
	texts := func(r *rand.Rand) []string {
		res := []string{}
		// a text well beyond 65536 bytes, of rules of every kind
		sb := strings.Builder{}
		sb.WriteString("<first> ::= <second>\n")
		for sb.Len() < 70000 {
			sb.WriteString(render(r, printableGram(r, 6)))
			sb.WriteString([]string{"\n", "\r\n", "\n\n", "\n \r\n"}[r.Intn(4)])
		}
		sb.WriteString("<last> ::= \"a\\tb\\\\\" | 'c' | \"\"")
		res = append(res, sb.String(), sb.String()+"'")
		// one rule
		sb.Reset()
		sb.WriteString("<s> ::= \"x\"")
		for i := 0; sb.Len() < 67000; i++ {
			sb.WriteString([]string{" | <n%d>", " \"t%d\"", "|'u%d\\n'", " <n%d>", " | \"\"  '%d'"}[r.Intn(5)])
		}
		t := sb.String()
		for i := 0; strings.Contains(t, "%d"); i++ {
			t = strings.Replace(t, "%d", fmt.Sprint(i), 1)
		}
		res = append(res, t, t+" |")
		// long names and literals, escapes far inside
		lit := strings.Repeat(`0123456789abc\n\"\\ `, 500)
		res = append(res, "<"+name(9000)+"> ::= <"+name(8000)+"> \""+lit+"\" '"+strings.Repeat("q", 5000)+"'",
			"<"+name(300)+"> ::= \""+strings.Repeat("x", 300)+"\\q\"",
			"<a> ::= \""+lit+"\\",
			"<a> ::= \""+lit+"\n\"")
		// empty lines and spaces
		res = append(res, strings.Repeat(" ", 20000)+"<a>"+strings.Repeat(" ", 3000)+"::="+strings.Repeat(" ", 3000)+"\"x\""+
			strings.Repeat(" ", 3000)+strings.Repeat("\n \r\n", 4000)+"<b> ::= \"y\""+strings.Repeat("\n", 2000))
		res = append(res, "<a> ::= \"x\""+strings.Repeat("\n", 3000)+"\r")
		// many rules
		for _, k := range []int{255, 256, 257, 1000} {
			sb.Reset()
			for i := 0; i < k; i++ {
				fmt.Fprintf(&sb, "<r%d> ::= \"%d\" <r%d>\n", i, i, i+1)
			}
			res = append(res, sb.String())
		}
		return res
	}
	plans["hugetext"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i <= size; i++ {
			for _, t := range texts(r) {
				emit(&Case{Kind: "text", Text: toInts([]byte(t))})
			}
		}
	}
	plans["hugeprint"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		big := func(k int) string {
			b := make([]byte, k)
			for i := range b {
				b[i] = printableByte(r)
			}
			return string(b)
		}
		for i := 0; i <= size; i++ {
			gs := []Gram{}
			for _, k := range []int{255, 256, 257, 1023, 1025, 4097, 16000} {
				gs = append(gs, Gram{{name(k), [][]Sym{{T(big(k)), N(name(k))}}}})
			}
			many := Gram{{"s", [][]Sym{}}}
			for k := 0; k < 1500; k++ {
				alt := []Sym{T(printableTerminal(r))}
				if k%3 == 0 {
					alt = append(alt, N(randName(r)), E())
				}
				many[0].Alts = append(many[0].Alts, alt)
			}
			long := Gram{{"s", [][]Sym{{}}}}
			for k := 0; k < 5000; k++ {
				long[0].Alts[0] = append(long[0].Alts[0], T(printableTerminal(r)))
			}
			rules := Gram{}
			for k := 0; k < 1200; k++ {
				rules = append(rules, printableGram(r, 1)...)
			}
			for _, g := range append(gs, many, long, rules) {
				emit(&Case{Kind: "print", G: g, Given: asText(g)})
			}
		}
	}
	plans["hugejson"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		obj := func(k int, v func(i int) string) string {
			s := []string{}
			for i := 0; i < k; i++ {
				s = append(s, fmt.Sprintf("\"k%d\":%s", i, v(i)))
			}
			return "{" + strings.Join(s, ",") + "}"
		}
		num := func(i int) string { return fmt.Sprint(i) }
		deep := strings.Repeat("[", 3000) + "1" + strings.Repeat("]", 3000)
		docs := []string{
			obj(260, num), obj(4200, num), obj(9000, num),
			"[" + strings.Repeat("1,", 9000) + "1]",
			"[" + strings.Repeat("1,", 9000) + "]",
			deep, deep + "]", deep[:len(deep)-1],
			strings.Repeat("[", 40000) + strings.Repeat("]", 40000),
			strings.Repeat(`{"a":`, 300) + "{}" + strings.Repeat("}", 300),
			strings.Repeat(`[{"a":`, 130) + `{"b":{}}` + strings.Repeat("}]", 130),
			`"` + strings.Repeat("x", 70000) + `"`,
			`{"` + strings.Repeat("k", 70000) + `":1}`,
			`{"` + strings.Repeat(`\"\\\u12aF`, 700) + `":1}`,
			strings.Repeat(" \n\r\n", 10000) + "1" + strings.Repeat("\n", 30000),
			"1" + strings.Repeat("0", 30000) + "." + strings.Repeat("0", 30000) + "e" + strings.Repeat("9", 10000),
			"{" + strings.Repeat(`"a": {"b": [1, {"c": null}]},`, 500) + `"d":[]}`,
			obj(200, func(i int) string { return obj(20, num) }),
		}
		for _, d := range docs {
			emit(example("json", d))
			if len(d) < 70000 && r.Intn(2) == 0 {
				emit(example("json", d+" ,"))
			}
		}
	}
}
