package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Names that look alike but are not.

const (
	plainFamilies = 4 // names of the notation, words of a message
	allFamilies   = 13
)

func lookalikes(r *rand.Rand, family, n int) []string {
	res := []string{}
	used := map[string]bool{}
	add := func(s string) {
		if !used[s] {
			used[s] = true
			res = append(res, s)
		}
	}
	pool := func(ss ...string) func(int) string {
		p := r.Perm(len(ss))
		return func(i int) string {
			if i < len(ss) {
				return ss[p[i]]
			}
			return ss[p[i%len(ss)]] + fmt.Sprint(i/len(ss))
		}
	}
	var f func(i int) string
	switch family {
	case 0: // capitals and small letters
		b := randLetters(r, 2+r.Intn(6))
		off := r.Intn(64)
		f = func(i int) string {
			x := []byte(strings.ToLower(b))
			m := i ^ off
			for j := range x {
				if m>>j&1 == 1 {
					x[j] -= 32
				}
			}
			if i >= 1<<len(x) {
				return string(x) + fmt.Sprint(i)
			}
			return string(x)
		}
	case 1: // one is the beginning of the other
		b := randLetters(r, 1)
		f = func(i int) string { return strings.Repeat(b, i+1) }
	case 2: // a long common beginning or end
		b := randLetters(r, []int{31, 63, 64, 127, 128, 255, 256, 300}[r.Intn(8)])
		if r.Intn(2) == 0 {
			f = func(i int) string { return b + randLetters(r, 1) }
		} else {
			f = func(i int) string { return randLetters(r, 1) + b }
		}
	case 3: // digits
		b := randLetters(r, 1)
		f = pool(b+"1", b+"01", b+"001", b+"10", b+"1e0", b+"0x1", b+"11", b)
	case 4: // ends in dashes
		f = func(i int) string { return "a" + strings.Repeat("-", i) }
	case 5: // spaces
		f = pool("a", " a", "a ", "a  ", "\ta", "a\n", "a\r\n", "  a ", "", " ", "\u00a0a")
	case 6: // numbers
		f = pool("0", "00", "1", "01", "-1", "-2", "1.0", "+1", "1e0", "", "0x1")
	case 7: // letters of Unicode that are or look equal to others
		f = pool("K", "\u212a", "k", "s", "\u017f", "S", "\u00e9", "e\u0301", "E\u0301", "\u00c9", "A", "\uff21", "\u0391", "a\u200b", "a")
	case 8: // notation
		f = pool("a", "<a>", "\"a\"", "'a'", "a>", "<a", "a|b", "a ::= b", "::=", "|", "\\a", "a\\")
	case 9: // NUL and controls
		f = pool("a", "a\x00", "\x00", "a\x00b", "a\x00c", "\x00a", "a\x7f", "\x1b[31ma")
	case 10: // what the library says itself
		f = pool("Unknown_0", "Unknown_1", "_literal", "_nothing", "EOL", "EOS", "%s", "%d", "%!s(MISSING)", "nothing", "terminal", "nil")
	case 11: // letters in another order
		b := []byte(randLetters(r, 4+r.Intn(9)))
		f = func(i int) string {
			r.Shuffle(len(b), func(x, y int) { b[x], b[y] = b[y], b[x] })
			return string(b)
		}
	case 12: // one letter of difference
		b := []byte(randLetters(r, 9))
		f = func(i int) string {
			x := append([]byte{}, b...)
			x[r.Intn(len(x))] = randLetters(r, 1)[0]
			return string(x)
		}
	}
	for i := 0; len(res) < n; i++ {
		if i > 50*n {
			add(fmt.Sprint("more", i))
			continue
		}
		add(f(i))
	}
	r.Shuffle(n, func(x, y int) { res[x], res[y] = res[y], res[x] })
	return res
}

func randLetters(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[r.Intn(len(letters))]
	}
	return string(b)
}

// alike gives the rules of g names of one family. Equal names stay equal.
func alike(r *rand.Rand, g Gram, families int) Gram {
	names := lookalikes(r, r.Intn(families), 2*len(g)+8)
	to := map[string]string{}
	name := func(s string) string {
		if _, ok := to[s]; !ok {
			if len(to) < len(names) {
				to[s] = names[len(to)]
			} else {
				to[s] = s + "x"
			}
		}
		return to[s]
	}
	h := clone(g)
	for i := range h {
		h[i].Head = name(h[i].Head)
		for a := range h[i].Alts {
			for s := range h[i].Alts[a] {
				if h[i].Alts[a][s].K == "n" {
					h[i].Alts[a][s].N = name(h[i].Alts[a][s].N)
				}
			}
		}
	}
	return h
}
