package main

import (
	"fmt"
	"math/rand"
)

// layerGram: a grammar drawn as a tree of rules with bytes of their own, so
// that it is LL(1) for most draws whatever its shape: rules that are empty only
// through other rules, sequences of many such rules, alternatives that start
// with several of them, recursion behind a byte; the rules come in any order
// behind the start rule. A few draws refer to a rule twice, which conflicts
// now and then.
func layerGram(r *rand.Rand, maxRules int) Gram {
	want := 2 + r.Intn(maxRules-1)
	bytes := r.Perm(255)
	next := 0
	fresh := func() Sym {
		b := bytes[next%255] + 1
		next++
		if r.Intn(8) == 0 {
			return TB(b, bytes[r.Intn(255)]+1)
		}
		return TB(b)
	}
	long := r.Intn(4) == 0 // sequences of many rules
	deep := r.Intn(3) == 0 // chains of single references
	again := r.Intn(3) == 0
	type todo struct {
		name string
		null bool
		at   int
	}
	g := Gram{}
	made := 0
	names := []todo{}
	queue := []todo{}
	ask := func(null bool, at int) Sym {
		t := todo{fmt.Sprintf("R%d", made), null, at}
		made++
		names = append(names, t)
		queue = append(queue, t)
		return N(t.name)
	}
	seq := func(at int, null bool) []Sym {
		// rules, all nullable but perhaps the last
		k := 1 + r.Intn(3)
		if deep && r.Intn(2) == 0 {
			k = 1
		}
		if long && r.Intn(2) == 0 {
			k = 4 + r.Intn(16)
		}
		alt := []Sym{}
		for i := 0; i < k && made < want+2; i++ {
			alt = append(alt, ask(null || i < k-1 || r.Intn(2) == 0, at+1))
		}
		if again && len(names) > 0 && r.Intn(4) == 0 {
			alt = append(alt, N(names[r.Intn(len(names))].name))
		}
		return alt
	}
	ask(r.Intn(3) == 0, 0)
	for len(queue) > 0 {
		i := 0
		if r.Intn(2) == 0 {
			i = r.Intn(len(queue))
		}
		t := queue[i]
		queue = append(queue[:i], queue[i+1:]...)
		more := made < want
		ru := Rule{Head: t.name}
		// the alternative that can be empty
		if t.null {
			if more && r.Intn(3) > 0 {
				ru.Alts = append(ru.Alts, seq(t.at, true))
			}
			if len(ru.Alts) == 0 || len(ru.Alts[0]) == 0 {
				ru.Alts = [][]Sym{{E()}}
			}
		}
		for n := r.Intn(3); n > 0 || len(ru.Alts) == 0; n-- {
			alt := []Sym{}
			switch {
			case more && r.Intn(2) == 0:
				alt = seq(t.at, false)
				if r.Intn(3) == 0 || len(alt) == 0 || t.null {
					alt = append(alt, fresh())
				}
			case r.Intn(3) == 0: // recursion behind a byte
				alt = append(alt, fresh(), N(names[r.Intn(len(names))].name))
				if r.Intn(2) == 0 {
					alt = append(alt, fresh())
				}
			default:
				alt = append(alt, fresh())
				if more && r.Intn(2) == 0 {
					alt = append(alt, seq(t.at, false)...)
				}
			}
			ru.Alts = append(ru.Alts, alt)
		}
		r.Shuffle(len(ru.Alts), func(i, j int) { ru.Alts[i], ru.Alts[j] = ru.Alts[j], ru.Alts[i] })
		g = append(g, ru)
	}
	for i := range g {
		if g[i].Head == "R0" {
			g[0], g[i] = g[i], g[0]
		}
	}
	switch r.Intn(3) {
	case 0: // in the order in which they are referred to
	case 1: // the other way around
		for i, j := 1, len(g)-1; i < j; i, j = i+1, j-1 {
			g[i], g[j] = g[j], g[i]
		}
	default:
		o := g[1:]
		r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	}
	return g
}

// ladderGram: a ladder of rules, each starting (or ending) with rules that are
// empty only through others and going on to the next rung, so that FIRST (or
// FOLLOW) has to travel many rungs, whatever the order of the rules.
func ladderGram(r *rand.Rand) Gram {
	bytes := r.Perm(255)
	next := 0
	fresh := func() Sym {
		next++
		return TB(bytes[next%255] + 1)
	}
	g := Gram{}
	made := 0
	var empty func(depth int) Sym
	empty = func(depth int) Sym {
		name := fmt.Sprintf("O%d", made)
		made++
		at := len(g)
		g = append(g, Rule{Head: name})
		alts := [][]Sym{}
		if depth == 0 {
			alts = append(alts, []Sym{E()})
		} else {
			alt := []Sym{}
			for k := 1 + r.Intn(2); k > 0; k-- {
				alt = append(alt, empty(depth-1))
			}
			alts = append(alts, alt)
		}
		if r.Intn(3) > 0 {
			alts = append(alts, []Sym{fresh()})
		}
		r.Shuffle(len(alts), func(i, j int) { alts[i], alts[j] = alts[j], alts[i] })
		g[at].Alts = alts
		return N(name)
	}
	k := 2 + r.Intn(5)
	first := r.Intn(2) == 0
	rungs := Gram{}
	for i := 0; i < k; i++ {
		alt := []Sym{}
		rung := N(fmt.Sprintf("L%d", i+1))
		if i == k-1 {
			rung = fresh()
		}
		pads := []Sym{}
		for n := r.Intn(3); n > 0; n-- {
			pads = append(pads, empty(r.Intn(3)))
		}
		if first {
			alt = append(append(alt, pads...), rung)
			if r.Intn(3) == 0 {
				alt = append(alt, fresh())
			}
		} else {
			if r.Intn(2) == 0 || i == k-1 {
				alt = append(alt, fresh())
			}
			if i < k-1 {
				alt = append(alt, rung)
			} else {
				// the last rung can stop early
				alt = append(alt, empty(r.Intn(3)))
			}
			alt = append(alt, pads...)
		}
		alts := [][]Sym{alt}
		switch r.Intn(4) {
		case 0:
			alts = append(alts, []Sym{fresh()})
		case 1:
			if !first {
				alts = append(alts, []Sym{E()})
			}
		}
		r.Shuffle(len(alts), func(i, j int) { alts[i], alts[j] = alts[j], alts[i] })
		rungs = append(rungs, Rule{fmt.Sprintf("L%d", i), alts})
	}
	top := rungs[0]
	rest := append(rungs[1:], g...)
	switch r.Intn(3) {
	case 0:
	case 1:
		for i, j := 0, len(rest)-1; i < j; i, j = i+1, j-1 {
			rest[i], rest[j] = rest[j], rest[i]
		}
	default:
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	}
	return append(Gram{top}, rest...)
}

// twins gives some rules a second one with the same alternatives, which
// takes over some of the references.
func twins(r *rand.Rand, g Gram) Gram {
	g = clone(g)
	for n := 1 + r.Intn(2); n > 0; n-- {
		j := r.Intn(len(g))
		tw := clone(Gram{g[j]})[0]
		tw.Head = fmt.Sprintf("%s-t%d", g[j].Head, n)
		g = append(g, tw)
		took := false
		for i := range g {
			for _, alt := range g[i].Alts {
				for s := range alt {
					if alt[s].K == "n" && alt[s].N == g[j].Head && r.Intn(2) == 0 {
						alt[s].N = tw.Head
						took = true
					}
				}
			}
		}
		if !took {
			// behind a byte of its own
			i := r.Intn(len(g))
			g[i].Alts = append(g[i].Alts, []Sym{TB(1 + r.Intn(255)), N(tw.Head)})
		}
	}
	return g
}

// towerGram: many rules, each referring to the next. What decides about the
// grammar is at one end and has to travel to some rule far away: a first byte
// upwards, that something can be empty upwards, what follows downwards.
func towerGram(r *rand.Rand, least, most int) Gram {
	nm := func(i int) string { return fmt.Sprintf("T%d", i) }
	bytes := r.Perm(255)
	next := 0
	fresh := func() Sym {
		next++
		return TB(bytes[next%255] + 1)
	}
	k := least + r.Intn(most-least+1)
	far := r.Intn(1 + k/4) // where it arrives
	what, other := fresh(), fresh()
	bad := r.Intn(2) == 0
	if !bad {
		what, other = other, what
	}
	same := fresh()
	if bad {
		same = what
	}
	extras := Gram{}
	pad := func() []Sym {
		if r.Intn(6) > 0 || len(extras) > 20 {
			return nil
		}
		n := fmt.Sprintf("P%d", len(extras))
		extras = append(extras, Rule{n, [][]Sym{{fresh()}, {E()}}})
		return []Sym{N(n)}
	}
	g := Gram{}
	kind := r.Intn(4)
	for i := 0; i < k; i++ {
		var alts [][]Sym
		switch kind {
		case 0: // first bytes
			alts = [][]Sym{append(pad(), N(nm(i+1)))}
			if i == 0 || r.Intn(8) == 0 {
				alts[0] = append(alts[0], fresh())
			}
			if i == far {
				alts = append(alts, []Sym{same})
			}
		case 1, 2: // emptiness
			alts = [][]Sym{append(pad(), N(nm(i+1)))}
			if len(alts[0]) == 1 && r.Intn(8) == 0 {
				alts[0] = append(alts[0], N("Q"))
			}
			switch {
			case i == 0 && kind == 1: // what follows is now a problem
				alts = [][]Sym{append(alts[0], fresh())}
			case i == far && kind == 2: // two ways of being empty
				alts = append(alts, []Sym{N("Z")})
			case i == far && i > 0: // the byte that follows
				alts = append(alts, []Sym{g[0].Alts[0][len(g[0].Alts[0])-1]})
			}
		case 3: // what follows
			alts = [][]Sym{append(append([]Sym{fresh()}, N(nm(i+1))), pad()...)}
			if i == far {
				alts[0] = append(alts[0], what)
			} else if i < far {
				alts[0] = append(alts[0], fresh())
			}
			if r.Intn(8) == 0 {
				alts = append(alts, []Sym{fresh()})
			}
		}
		r.Shuffle(len(alts), func(x, y int) { alts[x], alts[y] = alts[y], alts[x] })
		g = append(g, Rule{nm(i), alts})
	}
	last := [][]Sym{{what}}
	switch kind {
	case 1, 2:
		last = [][]Sym{{fresh()}}
		if bad {
			last = [][]Sym{{fresh()}, {E()}}
		}
		extras = append(extras, Rule{"Q", [][]Sym{{fresh()}, {E()}}})
		extras = append(extras, Rule{"Z", [][]Sym{{fresh()}, {E()}}})
	case 3:
		last = [][]Sym{{same, fresh()}, {E()}}
	}
	g = append(g, Rule{nm(k), last})
	g = append(g, extras...)
	rest := g[1:]
	switch r.Intn(4) {
	case 0:
	case 1:
		for i, j := 0, len(rest)-1; i < j; i, j = i+1, j-1 {
			rest[i], rest[j] = rest[j], rest[i]
		}
	default:
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	}
	return g
}

// wideGram: alternatives with many first bytes. They have many or few in
// common, round numbers of them, or none.
func wideGram(r *rand.Rand) Gram {
	bytes := r.Perm(255)
	g := Gram{}
	// a rule that can start with the bytes from x up to y
	some := func(x, y int) string {
		n := fmt.Sprintf("W%d", len(g))
		alts := [][]Sym{}
		for i := x; i < y; i++ {
			alts = append(alts, []Sym{TB(bytes[i%255] + 1)})
		}
		g = append(g, Rule{n, alts})
		return n
	}
	g = append(g, Rule{"S", nil})
	tail := 0
	end := func() Sym {
		tail++
		return TB(1 + tail%255)
	}
	m := []int{1, 2, 16, 32, 51, 64, 85, 127, 128, 129, 200, 254, 255}[r.Intn(13)]
	k := 2 + r.Intn(3)
	if r.Intn(2) == 0 && 256%m == 0 && m >= 16 {
		k = 256/m + 1
	}
	var alts [][]Sym
	switch r.Intn(4) {
	case 0: // all the same
		w := some(0, m)
		for i := 0; i < k; i++ {
			alts = append(alts, []Sym{N(w), end()})
		}
	case 1: // the same bytes by different rules
		for i := 0; i < k; i++ {
			alts = append(alts, []Sym{N(some(0, m)), end()})
		}
	case 2: // one after the other, the last perhaps a byte into the first
		if k*m > 255 {
			k = 255 / m
		}
		k = max(k, 2)
		m = min(m, 255/k)
		for i := 0; i < k; i++ {
			y := (i + 1) * m
			if i == k-1 {
				y += r.Intn(2) * (255 - y + r.Intn(2))
			}
			alts = append(alts, []Sym{N(some(i*m, y)), end()})
		}
	case 3: // what can be empty, and what follows
		w := some(0, m)
		g[1].Alts = append(g[1].Alts, []Sym{E()})
		x := min(m, 254) - r.Intn(2)*r.Intn(2)
		alts = [][]Sym{{N(w), N(some(x, x+1+r.Intn(255-x)))}}
	}
	g[0].Alts = alts
	return g
}
