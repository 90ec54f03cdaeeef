package main

import (
	"fmt"
	"math/rand"
)

// ---------------------------------------------------------------------------
// Grammars as people write them: lists of lists, layers of operators.

func distinctBytes(r *rand.Rand, n int) []int {
	p := r.Perm(255)
	res := []int{}
	if r.Intn(3) == 0 {
		for i := 0; i < n; i++ {
			res = append(res, 1+p[i])
		}
		return res
	}
	for i := 0; i < n; i++ {
		res = append(res, 33+i)
	}
	return res
}

// listGram: a tower of lists or of operator levels, LL(1) as made, with its
// rules after the first in any order.
func listGram(r *rand.Rand, most int) Gram {
	d := 2 + r.Intn(most-1)
	bs := distinctBytes(r, 3*d+8)
	name := func(k string, i int) string { return fmt.Sprintf("%s%d", k, i) }
	term := func(b int) Sym {
		v := []int{bs[b]}
		for r.Intn(4) == 0 {
			v = append(v, bs[r.Intn(len(bs))])
		}
		return Sym{K: "t", V: v}
	}
	g := Gram{}
	shape := r.Intn(4)
	for i := 0; i < d; i++ {
		next := N(name("L", i+1))
		switch shape {
		case 0: // Li: ti L(i+1) Li | nothing
			alt := []Sym{term(i), next, N(name("L", i))}
			if r.Intn(4) == 0 {
				alt = append(alt, term(d+i))
			}
			g = append(g, Rule{name("L", i), [][]Sym{alt, {E()}}})
		case 1: // levels of operators
			g = append(g, Rule{name("L", i), [][]Sym{{next, N(name("T", i))}}})
			t := Rule{name("T", i), [][]Sym{{term(i), next, N(name("T", i))}}}
			if r.Intn(3) == 0 {
				t.Alts = append(t.Alts, []Sym{term(d + i), next, N(name("T", i))})
			}
			t.Alts = append(t.Alts, []Sym{E()})
			if r.Intn(2) == 0 {
				a := t.Alts
				a[0], a[len(a)-1] = a[len(a)-1], a[0]
			}
			g = append(g, t)
		case 2: // separated items, optionally in brackets
			g = append(g, Rule{name("L", i), [][]Sym{{term(i), N(name("I", i)), term(d + i)}}})
			g = append(g, Rule{name("I", i), [][]Sym{{next, N(name("M", i))}, {E()}}})
			g = append(g, Rule{name("M", i), [][]Sym{{TB(bs[2*d+i]), next, N(name("M", i))}, {E()}}})
		default: // lists that can be empty, one after the other
			alts := [][]Sym{{term(i), N(name("L", i))}, {next}}
			if r.Intn(2) == 0 {
				alts[0], alts[1] = alts[1], alts[0]
			}
			g = append(g, Rule{name("L", i), alts})
		}
	}
	last := Rule{name("L", d), [][]Sym{{term(3 * d)}, {TB(bs[3*d+1]), N("L0"), TB(bs[3*d+2])}}}
	if shape == 0 || shape == 3 {
		if r.Intn(2) == 0 {
			last.Alts = append(last.Alts, []Sym{E()})
		}
	}
	g = append(g, last)
	rest := g[1:]
	switch r.Intn(3) {
	case 0:
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	case 1:
		for i, j := 0, len(rest)-1; i < j; i, j = i+1, j-1 {
			rest[i], rest[j] = rest[j], rest[i]
		}
	}
	return g
}

// ---------------------------------------------------------------------------
// Grammars and inputs beyond the sizes at which counters, buffers and fixed
// limits of an implementation would show.

func rep(n int, v ...int) []int {
	res := make([]int, 0, n*len(v))
	for ; n > 0; n-- {
		res = append(res, v...)
	}
	return res
}

func shuffleRest(r *rand.Rand, g Gram) Gram {
	rest := g[1:]
	r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	return g
}

type hugeCase struct {
	name string
	g    Gram
	ws   [][]int
}

func hugeCases(r *rand.Rand) []hugeCase {
	nm := func(i int) string { return fmt.Sprintf("R%d", i) }
	res := []hugeCase{}
	put := func(name string, g Gram, ws ...[]int) { res = append(res, hugeCase{name, g, ws}) }
	with := func(w []int, at, b int) []int {
		c := append([]int{}, w...)
		c[at] = b
		return c
	}
	cat := func(ws ...[]int) []int {
		res := []int{}
		for _, w := range ws {
			res = append(res, w...)
		}
		return res
	}

	// 300 rules below each other; every rule occurs in the tree
	n := 280 + r.Intn(40)
	g := Gram{}
	for i := 0; i < n; i++ {
		g = append(g, Rule{nm(i), [][]Sym{{T("("), N(nm(i + 1)), T(")")}}})
	}
	g = append(g, Rule{nm(n), [][]Sym{{T("x")}, {T("y"), N(nm(n))}}})
	w := cat(rep(n, '('), []int{'y', 'x'}, rep(n, ')'))
	put("nested rules", shuffleRest(r, g), w, with(w, len(w)-1, 'z'), with(w, n, 'z'), w[:len(w)-1], cat(w, []int{')'}))

	// 300 rules referring to the next one only, forwards and backwards, with
	// something after the reference
	for back := 0; back < 2; back++ {
		n := 300 + r.Intn(300)
		g := Gram{{nm(0), [][]Sym{{N(nm(1)), T(".")}}}}
		for i := 1; i < n; i++ {
			g = append(g, Rule{nm(i), [][]Sym{{N(nm(i + 1))}}})
		}
		g = append(g, Rule{nm(n), [][]Sym{{T("x"), N(nm(n))}, {E()}}})
		if back == 1 {
			rest := g[1:]
			for a, b := 0, len(rest)-1; a < b; a, b = a+1, b-1 {
				rest[a], rest[b] = rest[b], rest[a]
			}
		}
		put("chain of rules", g, []int{'.'}, []int{'x', 'x', '.'}, []int{'x', 'y'}, []int{})
	}

	// one rule with 255 alternatives
	g = Gram{{"s", [][]Sym{}}}
	w = []int{}
	for _, b := range r.Perm(255) {
		g[0].Alts = append(g[0].Alts, []Sym{TB(b+1, 'b', 255-b), N("t")})
	}
	g = append(g, Rule{"t", [][]Sym{{T(","), N("s")}, {E()}}})
	for _, b := range r.Perm(255) {
		w = append(w, b+1, 'b', 255-b, ',')
	}
	w = w[:len(w)-1]
	put("255 alternatives", g, w, with(w, len(w)-1, int('Z')), with(w, 3, 0), w[:len(w)-3])

	// a rule for every alternative
	g = Gram{{"s", [][]Sym{}}}
	for i := 1; i < 256; i++ {
		g[0].Alts = append(g[0].Alts, []Sym{N(nm(i)), N("t")})
	}
	g = append(g, Rule{"t", [][]Sym{{TB(7), N("s")}, {E()}}})
	w = []int{}
	for i := 1; i < 256; i++ {
		g = append(g, Rule{nm(i), [][]Sym{{TB(i), TB(256 - i)}}})
		w = append(w, i, 256-i, 7)
	}
	w = w[:len(w)-1]
	put("255 rules", shuffleRest(r, g), w, with(w, len(w)-1, 9), cat(w, []int{7}))

	// nesting deeper than 65536
	n = 66000 + r.Intn(3000)
	g = Gram{{"s", [][]Sym{{T("("), N("s"), T(")")}, {E()}}}}
	w = cat(rep(n, '('), rep(n, ')'))
	put("deep nesting", g, w, with(w, len(w)-1, ']'), w[:len(w)-1])

	// a long list of long terminals
	g = Gram{{"s", [][]Sym{{T("0123456789abcdefghijklmnopqrstuv"), N("s")}, {T("-")}}}}
	w = []int{}
	for len(w) < 67000 {
		w = append(w, g[0].Alts[0][0].V...)
	}
	w = append(w, '-')
	put("long list", g, w, with(w, len(w)-2, 'V'), with(w, len(w)-33, 'Q'), cat(w, []int{'-'}))

	// the same, flat: each item a rule of its own
	g = Gram{{"s", [][]Sym{{N("i"), N("s")}, {E()}}}, {"i", [][]Sym{{T("item;")}}}}
	w = rep(13400, 'i', 't', 'e', 'm', ';')
	put("many items", g, w, with(w, len(w)-1, ':'), w[:len(w)-1])

	// long terminals
	for _, n := range []int{255, 256, 257, 300 + r.Intn(900), 4096, 65535, 65536, 65537, 70000} {
		v := make([]int, n)
		for i := range v {
			v[i] = 1 + r.Intn(255)
		}
		g = Gram{{"s", [][]Sym{{TB(v...), N("t")}}}, {"t", [][]Sym{{T("!")}, {E()}}}}
		ws := [][]int{v, cat(v, []int{'!'}), with(v, n-1, v[n-1]^1), v[:n-1], with(v, n/2, v[n/2]^255)}
		if n > 5000 {
			ws = ws[1:4]
		}
		put(fmt.Sprintf("terminal of %d", n), g, ws...)
	}

	// long alternatives
	for _, n := range []int{64, 127, 128, 129, 255, 256, 257, 300, 1000} {
		alt := []Sym{}
		w := []int{}
		for i := 0; i < n; i++ {
			if r.Intn(3) == 0 {
				alt = append(alt, N("x"))
				w = append(w, 'x')
			} else {
				b := 1 + r.Intn(255)
				alt = append(alt, TB(b))
				w = append(w, b)
			}
		}
		g = Gram{{"s", [][]Sym{alt}}, {"x", [][]Sym{{T("x")}}}}
		put(fmt.Sprintf("alternative of %d", n), g, w, with(w, n-1, w[n-1]^255), w[:n-1])
	}
	alt := []Sym{}
	w = []int{}
	for i := 0; i < 66000; i++ {
		alt = append(alt, TB('a'+i%7))
		w = append(w, 'a'+i%7)
	}
	g = Gram{{"s", [][]Sym{alt}}}
	put("alternative of 66000", g, w, with(w, len(w)-1, '-'), w[:65000])

	// a run of rules that can be empty, in front of something
	g = Gram{{"s", [][]Sym{{}}}}
	for i := 1; i < 250; i++ {
		g[0].Alts[0] = append(g[0].Alts[0], N(nm(i)))
		g = append(g, Rule{nm(i), [][]Sym{{E()}, {TB(i)}}})
	}
	g[0].Alts[0] = append(g[0].Alts[0], TB(250))
	w = []int{}
	for i := 1; i < 250; i += 1 + r.Intn(3) {
		w = append(w, i)
	}
	w = append(w, 250)
	put("empty run", shuffleRest(r, g), w, []int{250}, []int{1, 250}, []int{249, 250}, []int{249, 1}, w[:len(w)-1])
	return res
}

// beginnings and ends an implementation might treat as special
var special = [][]int{{0xEF, 0xBB, 0xBF}, {0xFE, 0xFF}, {0xFF, 0xFE}, {0x1F, 0x8B}, {'#', '!'}, {26}, {4}, {13, 10}, {10},
	{13}, {32}, {9}, {0x0B}, {0x0C}, {0x85}, {0xA0}, {0xC2, 0x85}, {0xC2, 0xA0}, {0xC3, 0xA9}, {0xE2, 0x80, 0xA8}, {0xC0, 0x80},
	{0xED, 0xA0, 0x80}, {0xF0, 0x9F, 0x98, 0x80}, {0xEF, 0xBF, 0xBD}, {'/', '/'}, {'%'}, {'\\', 'n'}, {127}, {0x80}, {0xFF}, {1}}

// specialCases: grammars in which the special bytes are ordinary, and
// inputs with them where they do not belong.
func specialCases(r *rand.Rand) []hugeCase {
	res := []hugeCase{}
	for _, v := range special {
		x := TB(v...)
		cat := func(ws ...[]int) []int {
			res := []int{}
			for _, w := range ws {
				res = append(res, w...)
			}
			return res
		}
		a := []int{'a'}
		// they are not part of the language
		res = append(res, hugeCase{"strange", Gram{{"s", [][]Sym{{T("a"), N("s")}, {T("b")}}}},
			[][]int{cat(v, a, []int{'b'}), cat(a, v, []int{'b'}), cat(a, []int{'b'}, v), v}})
		res = append(res, hugeCase{"strange", Gram{{"s", [][]Sym{{T("a"), N("s")}, {E()}}}},
			[][]int{cat(v, a), cat(a, v), cat(a, v, a), v, cat(a, v, []int{0})}})
		if v[0] == 'a' {
			continue
		}
		// they are
		res = append(res, hugeCase{"own", Gram{{"s", [][]Sym{{x, N("s")}, {T("a"), N("s")}, {E()}}}},
			[][]int{cat(v, a), cat(a, v), cat(v, v, a, v), v, cat(v, v[:1]), cat(v, []int{'q'})}})
		res = append(res, hugeCase{"own", Gram{{"s", [][]Sym{{N("t"), x}, {T("a")}}}, {"t", [][]Sym{{T("z")}, {E()}}}},
			[][]int{v, cat([]int{'z'}, v), cat([]int{'z'}, v, v), cat([]int{'z'}, v[:len(v)-1]), a, cat(v, a)}})
	}
	r.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}

func init() {
	emitAll := func(cases []hugeCase, check []string, emit func(*Case)) {
		for _, h := range cases {
			c := &Case{Kind: "gram", Check: check, G: h.g, Note: h.name}
			for i, w := range h.ws {
				// sentences come first
				if len(w) > 5000 && (check[0] == "tree" && i > 1 || check[0] == "error" && i == 0) {
					continue
				}
				if check[0] == "gen" {
					continue
				}
				if w == nil {
					w = []int{}
				}
				c.Parses = append(c.Parses, Parse{Src: w, Form: "string"})
			}
			emit(c)
		}
	}
	huge := func(check ...string) planFn {
		return func(r *rand.Rand, n, size int, emit func(*Case)) {
			for i := 0; i <= size; i++ {
				emitAll(hugeCases(r), check, emit)
			}
			emitAll(specialCases(r), check, emit)
			if check[0] == "gen" {
				for i := 0; i < 24*(1+size); i++ {
					emit(&Case{Kind: "gram", Check: check, G: towerGram(r, 60, 280), Note: "tower"})
				}
				for i := 0; i < 96*(1+size); i++ {
					emit(&Case{Kind: "gram", Check: check, G: wideGram(r), Note: "wide"})
				}
			}
		}
	}
	plans["hugegen"] = huge("gen")
	plans["hugeaccept"] = huge("accept")
	plans["hugetree"] = huge("tree")
	plans["hugeerror"] = huge("error")
	plans["hugenumbering"] = huge("numbering")
	plans["hugereturned"] = huge("total", "returned")
}

func flat(t *TNode) [][4]int {
	res := [][4]int{}
	type item struct {
		n *TNode
		p int
	}
	stack := []item{{t, 0}}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		res = append(res, [4]int{x.n.T, x.n.S, x.n.X, x.p})
		me := len(res)
		for i := len(x.n.C) - 1; i >= 0; i-- {
			stack = append(stack, item{x.n.C[i], me})
		}
	}
	return res
}

func init() {
	// wide and deep trees; size is not used
	plans["walkhuge"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		leaf := func() *TNode { return &TNode{C: []*TNode{}} }
		chain := func(k, every int) *TNode {
			root := leaf()
			at := root
			for j := 1; j < k; j++ {
				x := leaf()
				if every > 0 && r.Intn(every) == 0 {
					at.C = append(at.C, leaf())
					at.C = append(at.C, x)
					at.C = append(at.C, leaf())
				} else {
					at.C = append(at.C, x)
				}
				at = x
			}
			return root
		}
		wide := func(k int) *TNode {
			root := leaf()
			for j := 1; j < k; j++ {
				x := leaf()
				if r.Intn(50) == 0 {
					x.C = append(x.C, leaf(), leaf())
				}
				root.C = append(root.C, x)
			}
			return root
		}
		shapes := []*TNode{chain(300, 0), chain(1100, 0), chain(5000, 7), chain(9000, 0), chain(17000, 0), chain(34000, 9), chain(70000, 0),
			wide(260), wide(1100), wide(4200), wide(9000), wide(17000), wide(34000), wide(70000),
			randTree(r, 20000), randTree(r, 20000)}
		both := leaf()
		for i := 0; i < 5; i++ {
			both.C = append(both.C, wide(5000), chain(5000, 0))
		}
		shapes = append(shapes, both)
		for i, t := range shapes {
			k := len(flat(t))
			relabel(r, t, k)
			c := &Case{Kind: "walk", Flat: flat(t), Tag: []string{"own", "lib"}[i%2], Mode: []string{"node", "time"}[r.Intn(2)]}
			for j := 0; j < k; j++ {
				x := r.Intn(4)
				if i%2 == 1 && j > 100 && r.Intn(3*k) == 0 {
					x = -1
				}
				c.Perm = append(c.Perm, x)
			}
			emit(c)
		}
	}
}
