package main

import "math/rand"

// ---------------------------------------------------------------------------
// Histories of calls.

type histGen struct {
	r   *rand.Rand
	ops []HistOp
	// numbers of calls that made an object of a kind
	grams, tables, parsers, sources, trees, binds []int
	given                                         map[int]bool    // tables a parser was made of
	words                                         map[int][][]int // parser -> inputs to try
	tabw                                          map[int][][]int
	gramw                                         map[int][][]int
}

func (h *histGen) add(o HistOp) int {
	if o.W == nil {
		o.W = []int{}
	}
	if o.G == nil {
		o.G = Gram{}
	}
	if o.Rows == nil {
		o.Rows = []Row{}
	}
	if o.Nm == nil {
		o.Nm = []Name{}
	}
	o.Watch, o.Touch = []int{}, []int{}
	h.ops = append(h.ops, o)
	return len(h.ops) - 1
}

func (h *histGen) pick(xs []int) int { return xs[h.r.Intn(len(xs))] }

func inputs(r *rand.Rand, g Gram) [][]int {
	res := [][]int{}
	for _, p := range wordsFor(r, g, 4, 12) {
		res = append(res, p.Src)
	}
	return res
}

func newHist(r *rand.Rand) *histGen {
	return &histGen{r: r, given: map[int]bool{}, words: map[int][][]int{}, tabw: map[int][][]int{}, gramw: map[int][][]int{}}
}

func (h *histGen) grammar() {
	var g Gram
	r := h.r
	for {
		switch r.Intn(5) {
		case 0:
			g = chainGram(r)
		case 1:
			g = nearMiss(r, pickLL1(r, 4))
		case 2:
			g = spoil(r, pickLL1(r, 3))
		default:
			g = pickLL1(r, 5)
		}
		if len(g) > 0 {
			break
		}
	}
	n := h.add(HistOp{Op: "grammar", G: g})
	h.grams = append(h.grams, n)
	h.gramw[n] = [][]int{{'a'}}
	if g.wellFormed() && analyze(g).ll1 {
		h.gramw[n] = inputs(r, g)
	}
}

func (h *histGen) self() {
	n := h.add(HistOp{Op: "self"})
	h.grams = append(h.grams, n)
	for k := 0; k < 3; k++ {
		h.gramw[n] = append(h.gramw[n], toInts([]byte(render(h.r, printableGram(h.r, 2)))))
	}
	h.gramw[n] = append(h.gramw[n], toInts([]byte(mutateText(h.r, "<a> ::= 'b'"))))
}

func (h *histGen) gen() {
	if len(h.grams) > 0 {
		g := h.pick(h.grams)
		n := h.add(HistOp{Op: "gen", A: g})
		h.tables = append(h.tables, n)
		h.tabw[n] = h.gramw[g]
	}
}

func (h *histGen) handTable() {
	rows, names, _ := randTable(h.r)
	n := h.add(HistOp{Op: "table", Rows: rows, Nm: names})
	h.tables = append(h.tables, n)
	for k := 0; k < 4; k++ {
		h.tabw[n] = append(h.tabw[n], walkTable(h.r, rows, 30))
	}
}

func (h *histGen) parser() {
	if len(h.tables) > 0 {
		t := h.pick(h.tables)
		n := h.add(HistOp{Op: "parser", A: t})
		h.given[t] = true
		h.parsers = append(h.parsers, n)
		h.words[n] = h.tabw[t]
	}
}

func (h *histGen) parse(ref bool) {
	if len(h.parsers) == 0 {
		return
	}
	p := h.pick(h.parsers)
	o := HistOp{Op: "parse", A: p, B: -1}
	if len(h.words[p]) > 0 {
		o.W = h.words[p][h.r.Intn(len(h.words[p]))]
	}
	if h.r.Intn(5) == 0 {
		o.W = mutate(h.r, o.W, []int{'a', 'b', 'c'})
	}
	if ref && h.r.Intn(2) == 0 {
		if len(h.sources) > 0 && h.r.Intn(3) == 0 {
			o.B = h.pick(h.sources)
		} else {
			o.B = h.add(HistOp{Op: []string{"bytes", "buffer"}[h.r.Intn(2)], W: o.W})
			h.sources = append(h.sources, o.B)
		}
		o.W = nil
	}
	h.trees = append(h.trees, h.add(o))
}

func (h *histGen) print() {
	if len(h.grams) > 0 {
		h.add(HistOp{Op: "print", A: h.pick(h.grams)})
	}
}

func (h *histGen) bindings() {
	h.binds = append(h.binds, h.add(HistOp{Op: "bindings"}))
}

func (h *histGen) toast() {
	if len(h.binds) > 0 && len(h.trees) > 0 {
		n := h.add(HistOp{Op: "toast", A: h.pick(h.binds), B: h.pick(h.trees)})
		h.grams = append(h.grams, n)
		h.gramw[n] = [][]int{{'a'}, {}}
	}
}

func (h *histGen) walk() {
	if len(h.trees) > 0 {
		h.add(HistOp{Op: "walk", A: h.pick(h.trees)})
	}
}

func (h *histGen) touch() {
	all := append(append(append(append([]int{}, h.grams...), h.trees...), h.binds...), h.sources...)
	for _, t := range h.tables {
		if !h.given[t] {
			all = append(all, t)
		}
	}
	if len(all) > 0 {
		h.add(HistOp{Op: "touch", A: h.pick(all), B: h.r.Intn(1000)})
	}
}

func (h *histGen) again() {
	// repeat an earlier call
	for t := 0; t < 10; t++ {
		o := h.ops[h.r.Intn(len(h.ops))]
		switch o.Op {
		case "parse":
			h.trees = append(h.trees, h.add(o))
			return
		case "gen":
			n := h.add(o)
			h.tables = append(h.tables, n)
			h.tabw[n] = h.gramw[o.A]
			return
		case "self":
			h.self()
			return
		case "bindings":
			h.bindings()
			return
		case "print", "walk":
			h.add(o)
			return
		case "toast":
			n := h.add(o)
			h.grams = append(h.grams, n)
			h.gramw[n] = [][]int{{'a'}, {}}
			return
		}
	}
}

// selfTree adds everything up to a tree of a text in the notation.
func (h *histGen) selfTree() {
	h.self()
	g := len(h.ops) - 1
	t := h.add(HistOp{Op: "gen", A: g})
	h.given[t] = true
	h.tables = append(h.tables, t)
	p := h.add(HistOp{Op: "parser", A: t})
	h.parsers = append(h.parsers, p)
	h.words[p] = h.gramw[g]
	h.trees = append(h.trees, h.add(HistOp{Op: "parse", A: p, B: -1, W: h.gramw[g][0]}))
	h.bindings()
}

func init() {
	plans["hist"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			h := newHist(r)
			if i%3 == 0 {
				h.selfTree()
			} else {
				h.grammar()
			}
			for len(h.ops) < 14+r.Intn(14) {
				switch r.Intn(24) {
				case 0:
					h.grammar()
				case 1, 2, 3:
					h.gen()
				case 4:
					h.handTable()
				case 5, 6, 7:
					h.parser()
				case 8, 9, 10, 11, 12:
					h.parse(true)
				case 13:
					h.print()
				case 14:
					h.bindings()
				case 15:
					h.toast()
				case 16:
					h.walk()
				case 17, 18, 19:
					h.touch()
				case 20, 21, 22:
					h.again()
				case 23:
					if r.Intn(4) == 0 {
						h.self()
					}
				}
			}
			c := &Case{Kind: "hist", Hist: h.ops}
			// some calls are also made alone
			for j, o := range h.ops {
				switch o.Op {
				case "gen", "parse", "print", "toast", "walk", "self", "bindings":
					if r.Intn(len(h.ops)) < 3 {
						c.Perm = append(c.Perm, j)
					}
				}
			}
			emit(c)
		}
	}
	plans["conc"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			h := newHist(r)
			cold := i%3 == 0 // no call of the library before the concurrent ones
			switch {
			case cold:
				h.grammar()
				h.handTable()
				h.parser()
				if r.Intn(2) == 0 {
					h.handTable()
					h.parser()
				}
			default:
				if i%3 == 1 {
					h.selfTree()
				}
				h.grammar()
				h.gen()
				for k := 1 + r.Intn(2); k > 0; k-- {
					h.parser()
				}
				h.parse(false)
				h.parse(false)
			}
			if len(h.binds) == 0 && !cold {
				h.bindings()
			}
			if r.Intn(3) == 0 && len(h.parsers) > 0 {
				p := h.pick(h.parsers)
				if len(h.words[p]) > 0 {
					h.sources = append(h.sources, h.add(HistOp{Op: "bytes", W: h.words[p][0]}))
				}
			}
			shared := len(h.ops)
			who := 2 + r.Intn(4)
			for w := 1; w <= who; w++ {
				for k := 2 + r.Intn(5); k > 0; k-- {
					at := len(h.ops)
					switch r.Intn(10) {
					case 0:
						h.add(HistOp{Op: "self"})
					case 1:
						h.add(HistOp{Op: "bindings"})
					case 2:
						h.print()
					case 3, 4:
						h.gen()
					case 5:
						h.walk()
					case 6:
						h.toast()
					default:
						h.parse(false)
						if len(h.sources) > 0 && r.Intn(4) == 0 && len(h.ops) > at {
							h.ops[at].B = h.pick(h.sources)
						}
					}
					for j := at; j < len(h.ops); j++ {
						h.ops[j].Who = w
					}
				}
				// goroutines share only what was prepared
				h.trim(shared)
			}
			emit(&Case{Kind: "conc", Hist: h.ops, Rounds: 4})
		}
	}
}

func (h *histGen) trim(n int) {
	for _, l := range []*[]int{&h.grams, &h.tables, &h.parsers, &h.sources, &h.trees, &h.binds} {
		k := []int{}
		for _, x := range *l {
			if x < n {
				k = append(k, x)
			}
		}
		*l = k
	}
}
