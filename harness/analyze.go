package main

// A small LL(1) analysis used only to steer the generators (how many of the
// grammars they make are LL(1)). It decides nothing: the oracle is the
// TLA+ specification.

type analysis struct {
	nul  []bool
	fst  []map[int]bool
	fol  []map[int]bool
	idx  map[string]int
	prod []bool
	ll1  bool
	h    []int // minimal derivation height, 1<<20 if none
}

func (g Gram) wellFormed() bool {
	if len(g) == 0 {
		return false
	}
	heads := map[string]bool{}
	for _, r := range g {
		if heads[r.Head] {
			return false
		}
		heads[r.Head] = true
	}
	for _, r := range g {
		for _, a := range r.Alts {
			if len(a) == 0 {
				return false
			}
			for _, s := range a {
				switch s.K {
				case "t":
					if len(s.V) == 0 || s.V[0] == 0 {
						return false
					}
				case "e":
					if len(a) > 1 {
						return false
					}
				case "n":
					if !heads[s.N] {
						return false
					}
				}
			}
		}
	}
	return true
}

func analyze(g Gram) *analysis {
	n := len(g)
	a := &analysis{nul: make([]bool, n), fst: make([]map[int]bool, n), fol: make([]map[int]bool, n), idx: map[string]int{}, prod: make([]bool, n), h: make([]int, n)}
	for i, r := range g {
		a.idx[r.Head] = i
		a.fst[i] = map[int]bool{}
		a.fol[i] = map[int]bool{}
		a.h[i] = 1 << 20
	}
	altFirst := func(alt []Sym) (map[int]bool, bool) {
		res := map[int]bool{}
		for _, s := range alt {
			switch s.K {
			case "t":
				res[s.V[0]] = true
				return res, false
			case "n":
				j := a.idx[s.N]
				for b := range a.fst[j] {
					res[b] = true
				}
				if !a.nul[j] {
					return res, false
				}
			}
		}
		return res, true
	}
	add := func(dst, src map[int]bool) bool {
		ch := false
		for b := range src {
			if !dst[b] {
				dst[b] = true
				ch = true
			}
		}
		return ch
	}
	for ch := true; ch; {
		ch = false
		for i, r := range g {
			for _, alt := range r.Alts {
				f, nl := altFirst(alt)
				if add(a.fst[i], f) {
					ch = true
				}
				if nl && !a.nul[i] {
					a.nul[i] = true
					ch = true
				}
				h := 0
				for _, s := range alt {
					if s.K == "n" && a.h[a.idx[s.N]] > h {
						h = a.h[a.idx[s.N]]
					}
				}
				if h+1 < a.h[i] {
					a.h[i] = h + 1
					ch = true
				}
			}
		}
	}
	a.fol[0][0] = true
	for ch := true; ch; {
		ch = false
		for i, r := range g {
			for _, alt := range r.Alts {
				for p, s := range alt {
					if s.K != "n" {
						continue
					}
					j := a.idx[s.N]
					f, nl := altFirst(alt[p+1:])
					if add(a.fol[j], f) {
						ch = true
					}
					if nl && add(a.fol[j], a.fol[i]) {
						ch = true
					}
				}
			}
		}
	}
	a.ll1 = true
	for i, r := range g {
		seen := map[int]bool{}
		for _, alt := range r.Alts {
			f, nl := altFirst(alt)
			if nl {
				for b := range a.fol[i] {
					f[b] = true
				}
			}
			for b := range f {
				if seen[b] {
					a.ll1 = false
				}
				seen[b] = true
			}
		}
	}
	for i := range g {
		a.prod[i] = a.h[i] < 1<<20
	}
	return a
}
