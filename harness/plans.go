package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
)

type planFn func(r *rand.Rand, n, size int, emit func(*Case))

var plans = map[string]planFn{}

func genPlan(name string, seed int64, n, size int, out string) error {
	p, ok := plans[name]
	if !ok {
		return fmt.Errorf("unknown plan %q", name)
	}
	f, err := os.Create(out)
	if err != nil {
		return err
	}
	w := bufio.NewWriterSize(f, 1<<20)
	id := 0
	var werr error
	p(rand.New(rand.NewSource(seed*7919+int64(len(name)))), n, size, func(c *Case) {
		id++
		c.ID = id
		c.blank()
		if c.Check == nil {
			c.Check = []string{}
		}
		b, err := marshal(c)
		if err != nil {
			werr = err
			return
		}
		w.Write(b)
		w.WriteByte('\n')
	})
	if werr != nil {
		return werr
	}
	if err := w.Flush(); err != nil {
		return err
	}
	return f.Close()
}

func init() {
	// C01: any well-formed grammar, about half of them LL(1)
	plans["gen"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			var g Gram
			for {
				switch i % 14 {
				case 0:
					g = randGram(r, 4)
				case 1:
					g = randGram(r, 10)
				case 2:
					g = chainGram(r)
				case 3:
					g = nearMiss(r, pickLL1(r, 6))
				case 4:
					g = nearMiss(r, nearMiss(r, chainGram(r)))
				case 5:
					g = pickLL1(r, 9)
				case 6:
					g = listGram(r, 3+r.Intn(18))
				case 7:
					g = nearMiss(r, listGram(r, 3+r.Intn(18)))
				case 8:
					g = layerGram(r, 6)
				case 9:
					g = layerGram(r, 24)
				case 10:
					g = nearMiss(r, layerGram(r, 14))
				case 11:
					g = ladderGram(r)
				case 12:
					g = nearMiss(r, ladderGram(r))
				case 13:
					g = towerGram(r, 10, 40)
				}
				if g.wellFormed() {
					break
				}
			}
			if r.Intn(10) == 0 {
				g = alike(r, g, allFamilies)
			}
			emit(&Case{Kind: "gram", Check: []string{"gen"}, G: g})
		}
	}
	// C02, C03, C04, C11: LL(1) grammars and words
	lang := func(check ...string) planFn {
		return func(r *rand.Rand, n, size int, emit func(*Case)) {
			for i := 0; i < n; i++ {
				g := pickReduced(r, 7)
				emit(&Case{Kind: "gram", Check: check, G: g, Parses: wordsFor(r, g, 8, 40)})
			}
		}
	}
	plans["accept"] = lang("accept")
	plans["tree"] = lang("tree")
	plans["error"] = lang("error")
	// names may be any strings
	plans["numbering"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		lang("numbering")(r, n, size, func(c *Case) {
			if r.Intn(2) == 0 {
				c.G = oddNames(r, c.G)
			}
			emit(c)
		})
	}
}

var odd = []string{"", "_literal", "_nothing", "_terminal", "_eol", "EOL", "EOS", "0", "1", "-1", "-2", " ", "\n", "Unknown_0",
	"Unknown_1", "literal", "nothing", "terminal", "<EOL>", "<s>", "a", "A", "aa", "a-", "a-1", "-", "\u00e9", "\u4e16\u754c", "\x00", "%d", "%!s(MISSING)", "\"", "\\"}

// oddNames renames the rules.
func oddNames(r *rand.Rand, g Gram) Gram {
	to := map[string]string{}
	p := r.Perm(len(odd))
	for i, ru := range g {
		if r.Intn(3) > 0 && i < len(p) {
			to[ru.Head] = odd[p[i]]
		} else if r.Intn(20) == 0 {
			to[ru.Head] = fmt.Sprintf("%0*d", 300, i)
		} else {
			to[ru.Head] = fmt.Sprintf("name of rule %d", i)
		}
	}
	h := clone(g)
	for i := range h {
		h[i].Head = to[h[i].Head]
		for _, alt := range h[i].Alts {
			for s := range alt {
				if alt[s].K == "n" {
					alt[s].N = to[alt[s].N]
				}
			}
		}
	}
	return h
}
