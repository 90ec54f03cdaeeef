package main

import (
	"fmt"
	"math/rand"
)

// randTable makes a table whose runs end: without consuming a byte a row can
// only lead to rows of a higher rank.
func randTable(r *rand.Rand) ([]Row, []Name, []int) {
	n := 1 + r.Intn(6)
	num := make([]int, n)
	used := map[int]bool{0: true}
	for i := 1; i < n; i++ {
		for {
			x := []int{i, i, i, r.Intn(20), r.Intn(20), 100 + r.Intn(1000), 64 * i, 255 + i, 256 * i, -5 - r.Intn(5)}[r.Intn(10)]
			if x < 0 && r.Intn(3) > 0 {
				continue
			}
			if !used[x] {
				used[x] = true
				num[i] = x
				break
			}
		}
	}
	ab := alphabet(r)
	ab = append(ab, 10, 13)
	ab = ab[r.Intn(len(ab)-2):]
	rows := []Row{}
	lit := func(first int) Op {
		v := []int{first}
		for r.Intn(3) == 0 && len(v) < 5 {
			v = append(v, append(ab, 0)[r.Intn(len(ab)+1)])
		}
		return Op{K: "t", V: v}
	}
	for i := 0; i < n; i++ {
		row := Row{R: num[i], Cells: []Cell{}}
		keys := map[int]bool{}
		for k := r.Intn(2*len(ab) + 1); k >= 0; k-- {
			b := ab[r.Intn(len(ab))]
			if r.Intn(6) == 0 {
				b = 0
			}
			if keys[b] {
				continue
			}
			keys[b] = true
			ops := []Op{}
			consumed := false
			for m := r.Intn(5); m > 0; m-- {
				switch x := r.Intn(10); {
				case x < 5:
					first := ab[r.Intn(len(ab))]
					if !consumed && b != 0 && r.Intn(8) > 0 {
						first = b
					}
					ops = append(ops, lit(first))
					consumed = true
				case x < 8:
					lo := i + 1
					if consumed {
						lo = 0
					}
					if lo < n {
						ops = append(ops, Op{K: "n", I: num[lo+r.Intn(n-lo)]})
					}
				case x == 8:
					switch r.Intn(6) {
					case 0:
						ops = append(ops, Op{K: "t", V: []int{}})
					case 1:
						ops = append(ops, Op{K: "n", I: 5000 + r.Intn(3)}) // no such row
					case 2:
						ops = append(ops, Op{K: "n", I: []int{-1, -3, -4, -100}[r.Intn(4)]})
					default:
						ops = append(ops, Op{K: "n", I: -2})
					}
				default:
					ops = append(ops, Op{K: "n", I: -2})
					consumed = true
				}
			}
			for j := range ops {
				if ops[j].V == nil {
					ops[j].V = []int{}
				}
			}
			row.Cells = append(row.Cells, Cell{b, ops})
		}
		rows = append(rows, row)
	}
	if r.Intn(40) == 0 {
		rows = rows[1:]
	}
	names := []Name{}
	for i := 0; i < n; i++ {
		if r.Intn(6) > 0 {
			names = append(names, Name{num[i], fmt.Sprintf("Q%d", i)})
		}
	}
	if r.Intn(4) == 0 {
		names = append(names, Name{77777, "spare"})
	}
	return rows, names, ab
}

// walkTable makes an input by running the table, choosing cells at random.
func walkTable(r *rand.Rand, rows []Row, budget int) []int {
	out := []int{}
	find := func(n int) *Row {
		for i := range rows {
			if rows[i].R == n {
				return &rows[i]
			}
		}
		return nil
	}
	stack := []Op{{K: "n", I: 0}}
	next := -1 // the byte a cell was chosen for
	for len(stack) > 0 && budget > 0 {
		budget--
		op := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if op.K == "t" {
			if len(op.V) > 0 {
				next = -1
			}
			out = append(out, op.V...)
			continue
		}
		if op.I == -2 {
			if r.Intn(2) == 0 && next != 10 {
				out = append(out, 13)
			}
			out = append(out, 10)
			next = -1
			continue
		}
		row := find(op.I)
		if row == nil || op.I < 0 || len(row.Cells) == 0 {
			break
		}
		c := row.Cells[r.Intn(len(row.Cells))]
		if next >= 0 {
			for _, d := range row.Cells {
				if d.B == next {
					c = d
				}
			}
		}
		if c.B != 0 {
			next = c.B
		}
		for i := len(c.Ops) - 1; i >= 0; i-- {
			stack = append(stack, c.Ops[i])
		}
	}
	if len(out) > 400 {
		out = out[:400]
	}
	return out
}

// spoil puts a flaw somewhere into a grammar.
func spoil(r *rand.Rand, g Gram) Gram {
	g = clone(g)
	i := r.Intn(len(g))
	put := func(s Sym) {
		a := r.Intn(len(g[i].Alts))
		alt := g[i].Alts[a]
		if len(alt) == 1 && alt[0].K == "e" && s.K != "e" {
			g[i].Alts[a] = []Sym{s}
			return
		}
		at := r.Intn(len(alt) + 1)
		n := append([]Sym{}, alt[:at]...)
		n = append(n, s)
		g[i].Alts[a] = append(n, alt[at:]...)
	}
	if len(g[i].Alts) == 0 {
		return g
	}
	switch r.Intn(7) {
	case 0:
		return Gram{}
	case 1: // alternative without symbols
		a := r.Intn(len(g[i].Alts) + 1)
		alts := append([][]Sym{}, g[i].Alts[:a]...)
		alts = append(alts, []Sym{})
		g[i].Alts = append(alts, g[i].Alts[a:]...)
	case 2: // empty terminal
		put(TB())
	case 3: // "" next to something
		put(E())
		if a := r.Intn(len(g[i].Alts)); r.Intn(3) == 0 {
			g[i].Alts[a] = append(g[i].Alts[a], E())
		}
	case 4: // terminal starting with NUL
		v := []int{0}
		for r.Intn(2) == 0 {
			v = append(v, 'a'+r.Intn(4))
		}
		put(TB(v...))
	case 5: // undefined name
		put(N("missing"))
	case 6: // two rules of one name
		j := r.Intn(len(g))
		d := clone(Gram{g[j]})[0]
		if r.Intn(3) == 0 {
			d.Alts = [][]Sym{{T("q")}}
		}
		at := r.Intn(len(g) + 1)
		n := append(Gram{}, g[:at]...)
		n = append(n, d)
		g = append(n, g[at:]...)
	}
	return g
}

// cycleGram: rules that lead back to themselves without a byte between, in
// some way or other.
func cycleGram(r *rand.Rand) Gram {
	k := 1 + r.Intn(4)
	nm := func(i int) string { return fmt.Sprintf("c%d", i) }
	g := Gram{}
	for i := 0; i < k; i++ {
		to := N(nm((i + 1) % k))
		if r.Intn(6) == 0 {
			to = N(nm(r.Intn(k)))
		}
		ru := Rule{nm(i), [][]Sym{{to}}}
		switch r.Intn(8) {
		case 0: // behind something that can be empty
			ru.Alts[0] = []Sym{N("e"), to}
		case 1:
			ru.Alts[0] = []Sym{N("e"), to, N("e")}
		case 2: // another way out
			ru.Alts = append(ru.Alts, []Sym{T("x")})
		case 3:
			ru.Alts = append(ru.Alts, []Sym{E()})
		case 4:
			ru.Alts = append([][]Sym{{E()}}, ru.Alts...)
		case 5:
			ru.Alts[0] = append(ru.Alts[0], to)
		}
		g = append(g, ru)
	}
	if r.Intn(2) == 0 {
		// only referred to
		g = append(Gram{{"s", [][]Sym{{T("a"), N(nm(r.Intn(k)))}, {T("b")}}}}, g...)
	}
	g = append(g, Rule{"e", [][]Sym{{E()}}})
	if r.Intn(3) == 0 {
		g[len(g)-1].Alts = append(g[len(g)-1].Alts, []Sym{T("e")})
	}
	r.Shuffle(len(g)-1, func(i, j int) { g[i+1], g[j+1] = g[j+1], g[i+1] })
	return g
}

// bulk grammars: LL(1), large in one respect.
func bulkGram(r *rand.Rand, size int) (Gram, []int) {
	nm := func(i int) string { return fmt.Sprintf("r%d", i) }
	g := Gram{}
	switch r.Intn(7) {
	case 0: // a chain of single references, downwards or upwards
		for i := 0; i < size; i++ {
			g = append(g, Rule{nm(i), [][]Sym{{N(nm(i + 1))}}})
		}
		g = append(g, Rule{nm(size), [][]Sym{{T("x")}}})
		if r.Intn(2) == 0 {
			h := g[1:]
			for a, b := 0, len(h)-1; a < b; a, b = a+1, b-1 {
				h[a], h[b] = h[b], h[a]
			}
		}
		return g, []int{'x'}
	case 1: // doubling, all can be empty
		for i := 0; i < size; i++ {
			g = append(g, Rule{nm(i), [][]Sym{{N(nm(i + 1)), N(nm(i + 1))}}})
		}
		g = append(g, Rule{nm(size), [][]Sym{{E()}}})
		return g, []int{}
	case 2: // nesting
		g = Gram{{"s", [][]Sym{{T("("), N("s"), T(")")}, {E()}}}}
		w := []int{}
		for i := 0; i < 40*size; i++ {
			w = append(w, '(')
		}
		for i := 0; i < 40*size; i++ {
			w = append(w, ')')
		}
		return g, w
	case 3: // a list
		g = Gram{{"s", [][]Sym{{N("e"), N("s")}, {E()}}}, {"e", [][]Sym{{T("a")}, {T("b"), N("e")}}}}
		w := []int{}
		for i := 0; i < 60*size; i++ {
			w = append(w, []int{'a', 'a', 'b'}[r.Intn(3)])
		}
		return g, append(w, 'a')
	case 4: // one rule with an alternative for every byte
		ru := Rule{"s", [][]Sym{}}
		for b := 1; b < 256; b++ {
			ru.Alts = append(ru.Alts, []Sym{TB(b), N("s")})
		}
		ru.Alts = append(ru.Alts, []Sym{E()})
		w := []int{}
		for i := 0; i < 10*size; i++ {
			w = append(w, 1+r.Intn(255))
		}
		return Gram{ru}, w
	case 5: // a long terminal
		v := []int{}
		for i := 0; i < 20*size; i++ {
			v = append(v, 1+r.Intn(255))
		}
		return Gram{{"s", [][]Sym{{TB(v...)}}}}, v
	default: // many rules that can be empty in a row
		top := []Sym{}
		w := []int{}
		n := size
		if n > 120 {
			n = 120
		}
		for i := 0; i < n; i++ {
			top = append(top, N(nm(i)))
		}
		g = append(g, Rule{"s", [][]Sym{top}})
		for i := 0; i < n; i++ {
			g = append(g, Rule{nm(i), [][]Sym{{TB(1 + i)}, {E()}}})
			if r.Intn(3) == 0 {
				w = append(w, 1+i)
			}
		}
		return g, w
	}
}

func init() {
	// C05: hand-written tables
	plans["table"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			rows, names, ab := randTable(r)
			c := &Case{Kind: "table", Check: []string{"accept", "tree", "error", "numbering"},
				Table: rows, Names: names}
			for j := 0; j < 12; j++ {
				w := []int{}
				for t := r.Intn(12); t >= 0; t-- {
					if v := walkTable(r, rows, 3+r.Intn(100)); len(v) >= len(w) {
						w = v
					}
				}
				if j%3 == 1 {
					w = mutate(r, w, ab)
				}
				c.Parses = append(c.Parses, Parse{Src: w, Form: "string"})
			}
			c.Parses = append(c.Parses, Parse{Src: []int{}, Form: "string"})
			if r.Intn(5) == 0 {
				c.NoNm = true
				c.Names = []Name{}
			}
			emit(c)
		}
	}
	// C11: names and rows that do not have the same numbers
	plans["tablenames"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		plans["table"](r, n, size, func(c *Case) {
			c.Check = []string{"numbering"}
			if !c.NoNm {
				names := []Name{}
				for _, x := range c.Names {
					if r.Intn(4) > 0 {
						names = append(names, x)
					}
				}
				for k := r.Intn(4); k > 0; k-- {
					m := []int{r.Intn(40), 1000 + r.Intn(70000), -3 - r.Intn(10), 1 << 30}[r.Intn(4)]
					taken := false
					for _, x := range names {
						taken = taken || x.K == m
					}
					if !taken {
						names = append(names, Name{m, []string{"", "extra", "Q0", "_literal"}[r.Intn(4)]})
					}
				}
				c.Names = names
			}
			emit(c)
		})
	}
	// C10: malformed grammars
	plans["malformed"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			var g Gram
			switch i % 4 {
			case 0:
				g = randGram(r, 5)
			case 1:
				g = chainGram(r)
			case 2:
				g = pickLL1(r, 6)
			case 3:
				g = nearMiss(r, pickLL1(r, 4))
			}
			if i%10 == 7 {
				g = cycleGram(r)
			} else if i%16 > 0 {
				g = spoil(r, g)
			}
			if i%5 == 0 && len(g) > 0 {
				g = spoil(r, g)
			}
			if i%11 == 0 && len(g) > 0 && i%10 != 7 {
				// a rule nothing can be derived from, before or after the rest
				u := Rule{"loop", [][]Sym{{N("loop")}}}
				if r.Intn(2) == 0 {
					u.Alts[0] = append(u.Alts[0], T("z"))
				}
				if r.Intn(2) == 0 {
					g = append(g, u)
				} else {
					g = append(Gram{g[0], u}, g[1:]...)
				}
			}
			c := &Case{Kind: "gram", Check: []string{"total", "returned"}, G: g}
			if g.wellFormed() && len(g) > 0 {
				c.Parses = wordsFor(r, g, 4, 20)
			} else {
				c.Parses = []Parse{{Src: []int{'a', 'b'}, Form: "string"}, {Src: []int{}, Form: "string"}}
			}
			emit(c)
		}
	}
	// C10: parsing with any generated table returns, also for rules that
	// derive nothing
	plans["total"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			var g Gram
			switch i % 4 {
			case 3:
				g = cycleGram(r)
			case 0:
				g = pickLL1(r, 8)
			case 1:
				for {
					g = randGram(r, 3)
					if a := analyze(g); a.ll1 {
						break
					}
				}
			case 2:
				g = chainGram(r)
				g = nearMiss(r, g)
				if !g.wellFormed() {
					g = chainGram(r)
				}
			}
			emit(&Case{Kind: "gram", Check: []string{"total", "returned"}, G: g, Parses: wordsFor(r, g, 8, 40)})
		}
	}
	// C10: large grammars and inputs
	plans["bulk"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			s := 10 + r.Intn(30)
			g, w := bulkGram(r, s)
			c := &Case{Kind: "gram", Check: []string{"total", "returned"}, G: g, Tag: "bulk"}
			c.Parses = []Parse{{Src: w, Form: "string"}, {Src: mutate(r, w, bytesOf(g)), Form: "string"}}
			emit(c)
		}
	}
}

func init() {
	// C03: large trees, compared node by node with the grammar
	plans["bigtree"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			g := pickReduced(r, 6)
			a := analyze(g)
			best := []int{}
			for t := 0; t < 60; t++ {
				w := sentence(r, g, a, 1500, 3000)
				if len(w) > len(best) && len(w) <= 5000 {
					best = w
				}
			}
			emit(&Case{Kind: "gram", Tag: "big", Check: []string{"tree"}, G: g,
				Parses: []Parse{{Src: best, Form: "string"}}})
		}
	}
}
