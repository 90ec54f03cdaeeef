package main

import (
	"fmt"
	"math/rand"
)

// ---------------------------------------------------------------------------
// Presentations of a grammar.

func present(r *rand.Rand, g Gram) (Gram, []int, []int) {
	n := len(g)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	how := r.Intn(4) // 0: everything
	if how != 1 {
		p := r.Perm(n - 1)
		if r.Intn(3) == 0 {
			// backwards
			for i := range p {
				p[i] = n - 2 - i
			}
		}
		for i := range p {
			perm[i+1] = p[i] + 1
		}
	}
	h := clone(g)
	rename := map[string]string{}
	if r.Intn(2) == 0 {
		p := r.Perm(n)
		style := r.Intn(6)
		look := lookalikes(r, r.Intn(allFamilies), n)
		for i, ru := range g {
			switch style {
			case 4, 5: // names that look alike
				rename[ru.Head] = look[p[i]]
			case 0: // exchange names
				rename[ru.Head] = g[p[i]].Head
			case 1:
				rename[ru.Head] = fmt.Sprintf("z%d", p[i])
			case 2:
				rename[ru.Head] = fmt.Sprintf("%c", 'a'+p[i])
			case 3:
				rename[ru.Head] = []string{"", " ", "Unknown_0", "<EOL>", "EOL", "0", "-1", "\xff", "terminal", "nothing"}[p[i]%10] + fmt.Sprint(p[i]/10*10)
			}
		}
	}
	swap := []int{}
	if r.Intn(2) == 0 {
		used := map[int]bool{0: true}
		bs := []int{}
		for _, ru := range g {
			for _, alt := range ru.Alts {
				for _, y := range alt {
					for _, b := range y.V {
						if !used[b] {
							used[b] = true
							bs = append(bs, b)
						}
					}
				}
			}
		}
		y := 1 + r.Intn(255)
		if r.Intn(2) == 0 {
			y = boundary[r.Intn(len(boundary))]
		}
		if len(bs) > 0 && !used[y] {
			swap = []int{bs[r.Intn(len(bs))], y}
		}
	}
	for i := range h {
		if to, ok := rename[h[i].Head]; ok {
			h[i].Head = to
		}
		if how != 2 {
			a := h[i].Alts
			r.Shuffle(len(a), func(x, y int) { a[x], a[y] = a[y], a[x] })
		}
		for a := range h[i].Alts {
			for s := range h[i].Alts[a] {
				y := &h[i].Alts[a][s]
				if to, ok := rename[y.N]; ok && y.K == "n" {
					y.N = to
				}
				y.V = swapBytes(swap, y.V)
			}
		}
	}
	res := make(Gram, n)
	for i := range h {
		res[perm[i]] = h[i]
	}
	return res, perm, swap
}

func swapBytes(swap []int, v []int) []int {
	res := make([]int, len(v))
	for i, b := range v {
		if len(swap) == 2 && b == swap[0] {
			b = swap[1]
		} else if len(swap) == 2 && b == swap[1] {
			b = swap[0]
		}
		res[i] = b
	}
	return res
}

// allBytes: any text of bytes 1 to 255, as a list
func allBytes() Gram {
	ru := Rule{"s", [][]Sym{}}
	for b := 1; b < 256; b++ {
		ru.Alts = append(ru.Alts, []Sym{TB(b), N("s")})
	}
	ru.Alts = append(ru.Alts, []Sym{E()})
	return Gram{ru}
}

func chunks(r *rand.Rand, n int) []Chunk {
	res := []Chunk{}
	style := r.Intn(4)
	left := n
	empties := 0
	for left > 0 {
		k := 1
		switch style {
		case 1:
			k = 1 + r.Intn(5)
		case 2:
			k = 1 + r.Intn(left)
		case 3:
			k = []int{1, 511, 512, 513, 64, 4096}[r.Intn(6)]
		}
		if r.Intn(6) == 0 && empties < 3 {
			k = 0
			empties++
		} else {
			empties = 0
		}
		if k > left {
			k = left
		}
		left -= k
		res = append(res, Chunk{k, ""})
		if len(res) > 3000 {
			res = append(res, Chunk{left, ""})
			left = 0
		}
	}
	if len(res) > 0 && r.Intn(2) == 0 {
		res[len(res)-1].Err = "eof"
	} else {
		for e := r.Intn(3); e > 0; e-- {
			res = append(res, Chunk{0, ""})
		}
		res = append(res, Chunk{0, "eof"})
	}
	return res
}

var wholeForms = []string{"bytes", "buffer", "usedbuffer", "bytesreader", "stringsreader", "bufio", "limited", "embedded", "pipe", "multi",
	"usedstringsreader", "usedbytesreader", "usedbufio", "usedsection", "usedfile"}
var badForms = []string{"nil", "nilbuffer", "int", "struct", "runes", "pstring", "pbytes", "buffervalue", "named", "bool", "error", "func",
	"builder", "namedstring", "grammar", "symbol", "strings", "onlywriterto", "onlybytes", "byte", "rune", "chan", "preader", "buffers", "readfunc", "marshaler"}
var faultKinds = []string{"", "ueof", "weof", "closed", "noprog", "shortbuf", "timeout", "notexist", "eintr", "canceled"}

func dress(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return ""
	}
	return dresses[r.Intn(len(dresses))]
}

// supplies lists ways to supply n bytes.
func supplies(r *rand.Rand, n, readers, faulty int, all bool) []Parse {
	res := []Parse{{Form: "string"}}
	for _, f := range wholeForms {
		if all || r.Intn(2) == 0 {
			res = append(res, Parse{Form: f})
		}
	}
	if n == 0 {
		res = append(res, Parse{Form: "nilbytes"})
	}
	for k := 0; k < readers; k++ {
		res = append(res, Parse{Form: "reader", Chunks: chunks(r, n), Dress: dress(r)})
	}
	fault := func(at int) {
		cs := chunks(r, at)
		if cs[len(cs)-1].N == 0 {
			cs[len(cs)-1].Err = "fault"
		} else if r.Intn(2) == 0 {
			cs[len(cs)-1].Err = "fault"
		} else {
			cs[len(cs)-1].Err = ""
			cs = append(cs, Chunk{0, "fault"})
		}
		res = append(res, Parse{Form: "reader", Chunks: cs, Fault: faultKinds[r.Intn(len(faultKinds))], Dress: dress(r)})
	}
	if n <= faulty {
		for at := 0; at <= n; at++ {
			fault(at)
		}
	} else {
		for k := 0; k < faulty; k++ {
			fault(r.Intn(n + 1))
		}
		fault(n)
		fault(0)
	}
	for _, f := range badForms {
		if all || r.Intn(4) == 0 {
			res = append(res, Parse{Form: f})
		}
	}
	// what comes after a failed one
	res = append(res, Parse{Form: "string"}, Parse{Form: "reader", Chunks: chunks(r, n)})
	return res
}

func init() {
	plans["pair"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			var g Gram
			for {
				switch i % 8 {
				case 6:
					g = listGram(r, 3+r.Intn(12))
				case 7:
					g = nearMiss(r, listGram(r, 3+r.Intn(12)))
				case 0:
					g = pickLL1(r, 8)
				case 1:
					g = chainGram(r)
				case 2:
					g = nearMiss(r, pickLL1(r, 6))
				case 3:
					g = nearMiss(r, chainGram(r))
				case 4:
					g = randGram(r, 6)
				case 5:
					g = pickReduced(r, 10)
				}
				if g.wellFormed() && len(g) > 0 {
					break
				}
			}
			h, perm, swap := present(r, g)
			c := &Case{Kind: "pair", G: g, G2: h, Perm: perm, Swap: swap}
			if a := analyze(g); a.ll1 {
				c.Parses = wordsFor(r, g, 5, 30)
				for _, p := range c.Parses {
					c.Parses2 = append(c.Parses2, Parse{Src: swapBytes(swap, p.Src), Form: p.Form})
				}
			}
			emit(c)
		}
	}
	plans["source"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			g := pickReduced(r, 6)
			ws := wordsFor(r, g, 3, 30)
			w := ws[r.Intn(len(ws))].Src
			emit(&Case{Kind: "source", G: g, Text: w, Parses: supplies(r, len(w), 6, 24, i%4 == 0)})
		}
	}
	plans["sourcebig"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		sizes := []int{511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000}
		for i := 0; i < n; i++ {
			k := sizes[r.Intn(len(sizes))]
			if r.Intn(3) == 0 {
				k = r.Intn(20000)
			}
			w := make([]int, k)
			for j := range w {
				w[j] = 1 + r.Intn(255)
			}
			if r.Intn(3) == 0 && k > 0 {
				w[r.Intn(k)] = 0
			}
			emit(&Case{Kind: "source", G: allBytes(), Text: w, Parses: supplies(r, k, 4, 4, true)})
		}
	}
}
