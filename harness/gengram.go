package main

import (
	"fmt"
	"math/rand"
)

func T(s string) Sym {
	v := make([]int, len(s))
	for i := range v {
		v[i] = int(s[i])
	}
	return Sym{K: "t", V: v}
}
func TB(v ...int) Sym { return Sym{K: "t", V: append([]int{}, v...)} }
func N(n string) Sym  { return Sym{K: "n", V: []int{}, N: n} }
func E() Sym          { return Sym{K: "e", V: []int{}} }

var boundary = []int{1, 2, 9, 10, 13, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255}

func alphabet(r *rand.Rand) []int {
	switch r.Intn(5) {
	case 0, 1:
		n := 2 + r.Intn(8)
		res := []int{}
		for i := 0; i < n; i++ {
			res = append(res, 'a'+i)
		}
		return res
	case 2:
		p := r.Perm(len(boundary))
		n := 2 + r.Intn(8)
		res := []int{}
		for i := 0; i < n; i++ {
			res = append(res, boundary[p[i]])
		}
		return res
	case 3:
		p := r.Perm(255)
		n := 2 + r.Intn(10)
		res := []int{}
		for i := 0; i < n; i++ {
			res = append(res, 1+p[i])
		}
		return res
	default:
		// sixteen consecutive bytes somewhere
		st := 1 + r.Intn(239)
		res := []int{}
		for i := 0; i < 16; i++ {
			res = append(res, st+i)
		}
		return res
	}
}

func ruleName(r *rand.Rand, style, i int) string {
	switch style {
	case 0:
		return string(rune('A' + i))
	case 1:
		return fmt.Sprintf("r%d", i)
	default:
		return fmt.Sprintf("N%c-%d", 'a'+(i*7)%26, i)
	}
}

// randGram makes a random grammar with a bias towards LL(1): alternatives of
// a rule mostly start differently. Several shapes are mixed in.
func randGram(r *rand.Rand, maxRules int) Gram {
	n := 1 + r.Intn(maxRules)
	ab := alphabet(r)
	style := r.Intn(3)
	nm := make([]string, n)
	for i := range nm {
		nm[i] = ruleName(r, style, i)
	}
	pNull := []float64{0.15, 0.35, 0.6}[r.Intn(3)]
	pNT := []float64{0.3, 0.5, 0.7}[r.Intn(3)]
	longT := r.Intn(3) == 0
	maxLen := 1 + r.Intn(5)
	term := func(first int) Sym {
		v := []int{first}
		for longT && r.Intn(2) == 0 && len(v) < 6 {
			b := ab[r.Intn(len(ab))]
			if r.Intn(12) == 0 {
				b = 0
			}
			v = append(v, b)
		}
		return Sym{K: "t", V: v}
	}
	g := make(Gram, n)
	for i := 0; i < n; i++ {
		rule := Rule{Head: nm[i]}
		na := 1 + r.Intn(4)
		perm := r.Perm(len(ab))
		hasNull := r.Float64() < pNull
		for a := 0; a < na; a++ {
			alt := []Sym{}
			l := 1 + r.Intn(maxLen)
			for s := 0; s < l; s++ {
				if s == 0 {
					if r.Float64() < pNT*0.7 && i+1 < n {
						alt = append(alt, N(nm[i+1+r.Intn(n-i-1)]))
					} else if r.Intn(40) == 0 {
						alt = append(alt, N(nm[r.Intn(n)]))
					} else {
						alt = append(alt, term(ab[perm[a%len(perm)]]))
					}
				} else if r.Float64() < pNT {
					alt = append(alt, N(nm[r.Intn(n)]))
				} else {
					alt = append(alt, term(ab[r.Intn(len(ab))]))
				}
			}
			rule.Alts = append(rule.Alts, alt)
		}
		if hasNull {
			p := r.Intn(len(rule.Alts) + 1)
			if p == len(rule.Alts) {
				rule.Alts = append(rule.Alts, []Sym{E()})
			} else {
				rule.Alts[p] = []Sym{E()}
			}
		}
		g[i] = rule
	}
	return g
}

// chainGram: sequences of several rules that can all or partly be empty, so
// that FOLLOW has to look across runs of them.
func chainGram(r *rand.Rand) Gram {
	k := 2 + r.Intn(6)
	ab := alphabet(r)
	for len(ab) < 2*k+4 {
		b := 1 + r.Intn(255)
		dup := false
		for _, x := range ab {
			if x == b {
				dup = true
			}
		}
		if !dup {
			ab = append(ab, b)
		}
	}
	p := r.Perm(len(ab))
	g := Gram{}
	top := []Sym{}
	for i := 0; i < k; i++ {
		top = append(top, N(fmt.Sprintf("X%d", i)))
		if r.Intn(5) == 0 {
			top = append(top, TB(ab[p[2*k+r.Intn(4)]]))
		}
	}
	if r.Intn(3) == 0 {
		// wrapped: the chain is used below another rule with something after it
		g = append(g, Rule{"S", [][]Sym{{N("W"), TB(ab[p[2*k]])}}})
		if r.Intn(2) == 0 {
			g[0].Alts[0] = append(g[0].Alts[0], N("W"))
		}
		g = append(g, Rule{"W", [][]Sym{top}})
	} else {
		g = append(g, Rule{"S", [][]Sym{top}})
	}
	rules := []Rule{}
	for i := 0; i < k; i++ {
		h := fmt.Sprintf("X%d", i)
		b := TB(ab[p[i]])
		var alts [][]Sym
		switch r.Intn(6) {
		case 0:
			alts = [][]Sym{{b}}
		case 1:
			alts = [][]Sym{{b, N(h)}, {E()}}
		case 2:
			alts = [][]Sym{{b, N(h), TB(ab[p[k+i]])}, {E()}}
		case 3:
			if i+1 < k {
				alts = [][]Sym{{b, N(fmt.Sprintf("X%d", i+1+r.Intn(k-i-1)))}, {E()}}
			} else {
				alts = [][]Sym{{b}, {E()}}
			}
		case 4:
			// empty only through another rule
			q := h + "e"
			alts = [][]Sym{{N(q), N(q + "2")}}
			rules = append(rules, Rule{q, [][]Sym{{b}, {E()}}}, Rule{q + "2", [][]Sym{{TB(ab[p[k+i]])}, {E()}}})
		default:
			alts = [][]Sym{{b}, {E()}}
		}
		if len(alts) == 2 && r.Intn(2) == 0 {
			alts[0], alts[1] = alts[1], alts[0]
		}
		rules = append(rules, Rule{h, alts})
	}
	r.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
	return append(g, rules...)
}

// nearMiss makes one small change that often turns an LL(1) grammar into one
// that is not, or back.
func nearMiss(r *rand.Rand, g Gram) Gram {
	g = clone(g)
	i := r.Intn(len(g))
	if len(g[i].Alts) == 0 {
		return g
	}
	a := r.Intn(len(g[i].Alts))
	alt := g[i].Alts[a]
	switch r.Intn(7) {
	case 0: // add an alternative starting like another symbol of the grammar
		j := r.Intn(len(g))
		if len(g[j].Alts) > 0 {
			o := g[j].Alts[r.Intn(len(g[j].Alts))]
			g[i].Alts = append(g[i].Alts, append([]Sym{}, o[:1+r.Intn(len(o))]...))
		}
	case 1: // make a rule nullable
		g[i].Alts = append(g[i].Alts, []Sym{E()})
	case 2: // the same, first
		g[i].Alts = append([][]Sym{{E()}}, g[i].Alts...)
	case 3: // drop the last symbol
		if len(alt) > 1 {
			g[i].Alts[a] = alt[:len(alt)-1]
		}
	case 4: // append a rule reference
		if alt[0].K != "e" {
			g[i].Alts[a] = append(append([]Sym{}, alt...), N(g[r.Intn(len(g))].Head))
		}
	case 5: // put a rule reference first
		if alt[0].K != "e" {
			g[i].Alts[a] = append([]Sym{N(g[r.Intn(len(g))].Head)}, alt...)
		}
	case 6: // drop the first symbol
		if len(alt) > 1 {
			g[i].Alts[a] = alt[1:]
		}
	}
	return g
}

func clone(g Gram) Gram {
	res := make(Gram, len(g))
	for i, r := range g {
		res[i].Head = r.Head
		res[i].Alts = make([][]Sym, len(r.Alts))
		for a, alt := range r.Alts {
			res[i].Alts[a] = make([]Sym, len(alt))
			for s, y := range alt {
				y.V = append([]int{}, y.V...)
				res[i].Alts[a][s] = y
			}
		}
	}
	return res
}

// pickLL1 draws until the analysis says LL(1) (and the start rule derives
// something), within a number of tries.
func pickLL1(r *rand.Rand, maxRules int) Gram {
	for {
		var g Gram
		switch r.Intn(10) {
		case 8:
			g = ladderGram(r)
		case 0, 1:
			g = chainGram(r)
		case 2:
			g = listGram(r, 2+maxRules/2)
		case 3, 4:
			g = layerGram(r, 2+maxRules)
		default:
			g = randGram(r, maxRules)
		}
		if r.Intn(8) == 0 {
			g = twins(r, g)
		}
		a := analyze(g)
		if a.ll1 && a.prod[0] {
			if r.Intn(8) == 0 {
				g = alike(r, g, plainFamilies)
			}
			return g
		}
	}
}

func pickReduced(r *rand.Rand, maxRules int) Gram {
	for {
		g := pickLL1(r, maxRules)
		a := analyze(g)
		ok := true
		for _, p := range a.prod {
			ok = ok && p
		}
		if ok {
			return g
		}
	}
}

// derive appends a random sentence of rule i.
func derive(r *rand.Rand, g Gram, a *analysis, i int, out *[]int, budget, grow *int, limit int) {
	*budget--
	rule := g[i]
	type cand struct{ alt, h int }
	cands := []cand{}
	best := 1 << 21
	for x, alt := range rule.Alts {
		h := 0
		for _, s := range alt {
			if s.K == "n" && a.h[a.idx[s.N]] > h {
				h = a.h[a.idx[s.N]]
			}
		}
		if h >= 1<<20 {
			continue
		}
		if h < best {
			best = h
		}
		cands = append(cands, cand{x, h})
	}
	var pick int
	if *budget <= 0 || len(*out) > limit {
		low := []int{}
		for _, c := range cands {
			if c.h == best {
				low = append(low, c.alt)
			}
		}
		pick = low[r.Intn(len(low))]
	} else {
		pick = cands[r.Intn(len(cands))].alt
		if *grow > 0 {
			// prefer what leads to a longer text
			for t := 0; t < 3; t++ {
				refs := 0
				for _, s := range rule.Alts[pick] {
					if s.K == "n" {
						refs++
					}
				}
				if refs > 0 || len(rule.Alts[pick]) > 1 {
					break
				}
				*grow--
				pick = cands[r.Intn(len(cands))].alt
			}
		}
	}
	for _, s := range rule.Alts[pick] {
		switch s.K {
		case "t":
			*out = append(*out, s.V...)
		case "n":
			derive(r, g, a, a.idx[s.N], out, budget, grow, limit)
		}
	}
}

func sentence(r *rand.Rand, g Gram, a *analysis, budget, limit int) []int {
	out := []int{}
	b := budget
	grow := 0
	if r.Intn(3) > 0 {
		grow = budget * 4
	}
	derive(r, g, a, 0, &out, &b, &grow, limit)
	return out
}

func bytesOf(g Gram) []int {
	seen := map[int]bool{}
	res := []int{}
	for _, ru := range g {
		for _, alt := range ru.Alts {
			for _, s := range alt {
				for _, b := range s.V {
					if !seen[b] {
						seen[b] = true
						res = append(res, b)
					}
				}
			}
		}
	}
	if len(res) == 0 {
		res = append(res, 'x')
	}
	return res
}

func mutate(r *rand.Rand, w []int, ab []int) []int {
	w = append([]int{}, w...)
	rb := func() int {
		switch r.Intn(8) {
		case 0:
			return 0
		case 1:
			return r.Intn(256)
		default:
			return ab[r.Intn(len(ab))]
		}
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		switch r.Intn(8) {
		case 0: // truncate
			w = w[:r.Intn(len(w)+1)]
		case 1: // extend
			for j := 1 + r.Intn(3); j > 0; j-- {
				w = append(w, rb())
			}
		case 2: // delete
			if len(w) > 0 {
				i := r.Intn(len(w))
				w = append(w[:i], w[i+1:]...)
			}
		case 3: // insert
			i := r.Intn(len(w) + 1)
			w = append(w[:i], append([]int{rb()}, w[i:]...)...)
		case 4, 5: // replace
			if len(w) > 0 {
				w[r.Intn(len(w))] = rb()
			}
		case 6: // NUL and something at the end
			w = append(w, 0)
			for j := r.Intn(3); j > 0; j-- {
				w = append(w, rb())
			}
		case 7: // repeat a piece
			if len(w) > 0 {
				i := r.Intn(len(w))
				j := i + r.Intn(len(w)-i) + 1
				if j > len(w) {
					j = len(w)
				}
				w = append(w, w[i:j]...)
			}
		}
	}
	return w
}

// words for a grammar: sentences, near misses, and random ones.
func wordsFor(r *rand.Rand, g Gram, n, limit int) []Parse {
	a := analyze(g)
	ab := bytesOf(g)
	res := []Parse{}
	add := func(w []int) {
		if len(w) > 4*limit+40 {
			w = w[:4*limit+40]
		}
		if w == nil {
			w = []int{}
		}
		res = append(res, Parse{Src: w, Form: "string"})
	}
	if a.prod[0] {
		for i := 0; i < n; i++ {
			s := sentence(r, g, a, 2+r.Intn(3*limit), 1+r.Intn(limit))
			switch {
			case i%2 == 0:
				add(s)
			default:
				add(mutate(r, s, ab))
			}
		}
	}
	add([]int{})
	w := []int{}
	for j := r.Intn(6); j >= 0; j-- {
		w = append(w, ab[r.Intn(len(ab))])
	}
	add(w)
	return res
}
