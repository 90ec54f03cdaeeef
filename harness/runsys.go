package main

import (
	"math/rand"
	"sort"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// Histories of calls recorded in full, for TraceSystem.

func fromRules(rs []TRule) bnf.Grammar {
	g := bnf.Grammar{}
	for _, r := range rs {
		ru := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: string(toBytes(r.Head))}}
		for _, a := range r.Alts {
			q := bnf.Sequence{}
			for _, y := range a {
				switch y.K {
				case "t":
					q.Symbols = append(q.Symbols, bnf.SymbolTerminal{Name: string(toBytes(y.V))})
				case "n":
					q.Symbols = append(q.Symbols, bnf.SymbolNonTerminal{Name: string(toBytes(y.V))})
				case "e":
					q.Symbols = append(q.Symbols, bnf.SymbolNothing{})
				}
			}
			ru.Tail.Sequences = append(ru.Tail.Sequences, q)
		}
		g.Rules = append(g.Rules, ru)
	}
	return g
}

func fromBind(b *fromcst.BNFCSTtoASTBindings) *Bindings {
	res := &Bindings{Ignore: append([]int{}, b.IgnoreNodeTypes...), Rule: b.RuleType, Head: b.RuleHeadType,
		Tail: b.RuleTailType, Seq: b.ExpressionSequencesType, Sym: b.SequencesSymbolType,
		Term: append([]int{}, b.SymbolTerminalTypes...), NT: b.SymbolNonTerminalType,
		Esc: b.EscapeSequenceType, EscCh: b.EscapeCharacterType, Map: []EscPair{}}
	keys := []string{}
	for k := range b.EscapeMapping {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		res.Map = append(res.Map, EscPair{toInts([]byte(k)), toInts([]byte(b.EscapeMapping[k]))})
	}
	return res
}

func fromNames(m map[int]string) []BName {
	res := []BName{}
	for _, n := range namesList(m) {
		res = append(res, BName{n.K, toInts([]byte(n.V))})
	}
	return res
}

func toNames(ns []BName) map[int]string {
	m := map[int]string{}
	for _, n := range ns {
		m[n.K] = string(toBytes(n.V))
	}
	return m
}

// over writes src over dst, in its memory as far as it goes.
func over[T any](dst, src []T, one func(d *T, s T)) []T {
	n := min(len(dst), len(src))
	for i := 0; i < n; i++ {
		one(&dst[i], src[i])
	}
	return append(dst[:n], src[n:]...)
}

func (h *SysOp) overwrite(o *obj) {
	switch h.Op {
	case "setgrammar":
		g := fromRules(h.Rules)
		o.g.Rules = over(o.g.Rules, g.Rules, func(d *bnf.Rule, s bnf.Rule) {
			d.Head = s.Head
			d.Tail.Sequences = over(d.Tail.Sequences, s.Tail.Sequences, func(d *bnf.Sequence, s bnf.Sequence) {
				d.Symbols = over(d.Symbols, s.Symbols, func(d *bnf.Symbol, s bnf.Symbol) { *d = s })
			})
		})
	case "settable":
		t := toTable(h.Rows)
		for r, row := range *o.table {
			if t[r] == nil {
				delete(*o.table, r)
				continue
			}
			for b, ops := range row {
				if _, ok := t[r][b]; !ok {
					delete(row, b)
					continue
				}
				row[b] = over(ops, t[r][b], func(d *parser.ParserOp, s parser.ParserOp) { *d = s })
			}
			for b, ops := range t[r] {
				if _, ok := row[b]; !ok {
					row[b] = ops
				}
			}
		}
		for r, row := range t {
			if (*o.table)[r] == nil {
				(*o.table)[r] = row
			}
		}
		clear(*o.names)
		for k, v := range toNames(h.BNames) {
			(*o.names)[k] = v
		}
	case "setsource":
		if o.buf != nil {
			o.buf.Reset()
			o.buf.Write(toBytes(h.W))
		} else {
			o.src = over(o.src, toBytes(h.W), func(d *byte, s byte) { *d = s })
		}
	case "setbind":
		b := h.Bind.toLib()
		old := *o.bind
		ig := over(old.IgnoreNodeTypes, b.IgnoreNodeTypes, func(d *int, s int) { *d = s })
		te := over(old.SymbolTerminalTypes, b.SymbolTerminalTypes, func(d *int, s int) { *d = s })
		m := old.EscapeMapping
		clear(m)
		for k, v := range b.EscapeMapping {
			m[k] = v
		}
		*o.bind = b
		o.bind.IgnoreNodeTypes, o.bind.SymbolTerminalTypes, o.bind.EscapeMapping = ig, te, m
	case "touch":
		o.scribble(h.B)
	}
}

func (h *SysOp) do(at func(int) *obj) *obj {
	h.Watch, h.Touch = []int{}, []int{}
	h.Nodes, h.Codes, h.Words, h.Msg, h.Text, h.Visits = [][4]int{}, []int{}, []string{}, []int{}, []int{}, [][4]int{}
	var res *obj
	switch h.Op {
	case "grammar":
		g := fromRules(h.Rules)
		h.Res = "caller"
		return &obj{g: &g}
	case "table":
		t := toTable(h.Rows)
		m := toNames(h.BNames)
		h.Res = "caller"
		return &obj{table: &t, names: &m}
	case "mkbind":
		b := h.Bind.toLib()
		h.Res = "caller"
		return &obj{bind: &b}
	case "setgrammar", "settable", "setsource", "setbind", "touch":
		o := at(h.A)
		ok := o != nil
		switch h.Op {
		case "setgrammar":
			ok = ok && o.g != nil
		case "settable":
			ok = ok && o.table != nil
		case "setsource":
			ok = ok && (o.src != nil || o.buf != nil)
		case "setbind":
			ok = ok && o.bind != nil
		}
		if !ok {
			h.Res = "skip"
			return nil
		}
		h.Res = "caller"
		h.Touch = []int{h.A + 1}
		h.overwrite(o)
		return nil
	}
	res = h.call(at)
	h.Clean = h.clean
	if h.Res == "err" {
		h.Msg = toInts([]byte(h.Note))
		h.Codes, h.Words = errCodes(h.Note), errWords(h.Note)
	}
	if h.Res != "ok" {
		return res
	}
	switch h.Op {
	case "self", "toast":
		h.Rules = fromGrammar(res.g)
	case "bindings":
		h.Bind = fromBind(res.bind)
	case "gen":
		h.BNames = fromNames(*res.names)
	case "parse":
		h.Nodes = flatten(res.tree)
		h.BNames = fromNames(*res.names)
	case "print":
		h.Text = toInts([]byte(h.text))
	case "walk":
		h.Visits = h.visits
	}
	return res
}

func runSys(c *Case) {
	objs := []*obj{}
	gone := map[int]bool{}
	at := func(k int) *obj {
		if k < 0 || k >= len(objs) || gone[k] {
			return nil
		}
		return objs[k]
	}
	cap := startCapture()
	defer cap.stop()
	for i := range c.Sys {
		h := &c.Sys[i]
		before := cap.size()
		objs = append(objs, h.do(at))
		h.Printed = cap.size() - before
		if h.Op == "touch" {
			gone[h.A] = true // nobody knows what it holds
		}
		for _, o := range objs {
			h.Watch = append(h.Watch, small(o.digest()))
		}
	}
}

// ---------------------------------------------------------------------------

func smallBind(r *rand.Rand) *Bindings {
	b, _ := randBindings(r)
	k := func() int { return r.Intn(7) }
	b.Rule, b.Head, b.Tail, b.Seq, b.Sym, b.NT = k(), k(), k(), k(), k(), k()
	b.Esc, b.EscCh = 900, 901
	if r.Intn(4) == 0 {
		b.Esc, b.EscCh = k(), k()
	}
	b.Term = []int{k()}
	if r.Intn(2) == 0 {
		b.Term = append(b.Term, k(), -1)
	}
	b.Ignore = []int{}
	if r.Intn(3) == 0 {
		b.Ignore = append(b.Ignore, k())
	}
	if r.Intn(2) == 0 { // likely to give a grammar: what a rule is made of is below it
		b.Rule, b.Head, b.Tail, b.Seq = 0, 1+r.Intn(3), 1+r.Intn(3), 1+r.Intn(3)
		if r.Intn(2) == 0 {
			b.Tail, b.Seq = 1, 1
			b.Head = -1
			b.Sym = 1
			b.Term = []int{-1}
		}
	}
	return b
}

func bnames(ns []Name) []BName {
	res := []BName{}
	for _, n := range ns {
		res = append(res, BName{n.K, toInts([]byte(n.V))})
	}
	return res
}

// sysOps makes a history for TraceSystem of one for TraceHist: overwriting
// gives known contents.
func sysOps(r *rand.Rand, h *histGen) []SysOp {
	ops := []SysOp{}
	for _, o := range h.ops {
		s := SysOp{HistOp: o, Rules: []TRule{}, BNames: []BName{}, Bind: &Bindings{Ignore: []int{}, Term: []int{}, Map: []EscPair{}}}
		switch o.Op {
		case "grammar":
			s.Rules = asText(o.G)
		case "table":
			s.BNames = bnames(o.Nm)
		case "bindings":
			if r.Intn(3) == 0 {
				s.Op, s.Bind = "mkbind", smallBind(r)
			}
		case "touch":
			kind := ""
			if o.A < len(h.ops) {
				kind = ops[o.A].Op
			}
			switch kind {
			case "grammar", "self", "toast":
				s.Op = "setgrammar"
				for {
					g := pickLL1(r, 3)
					if r.Intn(3) == 0 {
						g = nearMiss(r, g)
					}
					if r.Intn(3) == 0 && kind == "grammar" {
						// almost the same
						g = nearMiss(r, h.ops[o.A].G)
					}
					if len(g) > 0 {
						s.Rules = asText(g)
						break
					}
				}
			case "table", "gen":
				s.Op = "settable"
				rows, nm, _ := randTable(r)
				s.Rows, s.BNames = rows, bnames(nm)
			case "bytes", "buffer":
				s.Op = "setsource"
				if len(h.ops[o.A].W) > 0 && r.Intn(3) > 0 {
					s.W = mutate(r, h.ops[o.A].W, []int{'a', 'b', 'c'})
				} else {
					s.W = []int{'a'}
				}
			case "bindings", "mkbind":
				s.Op = "setbind"
				s.Bind = smallBind(r)
			}
		}
		s.G, s.Nm = Gram{}, []Name{}
		ops = append(ops, s)
	}
	return ops
}

func init() {
	runners["system"] = runSys
	plans["system"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			h := newHist(r)
			if i%12 == 0 {
				h.selfTree()
			} else {
				h.grammar()
			}
			for len(h.ops) < 12+r.Intn(16) {
				switch r.Intn(25) {
				case 0, 1:
					h.grammar()
				case 2, 3, 4:
					h.gen()
				case 5:
					h.handTable()
				case 6, 7, 8:
					h.parser()
				case 9, 10, 11, 12, 13:
					h.parse(true)
				case 14:
					h.print()
				case 15:
					h.bindings()
				case 16:
					h.toast()
				case 17:
					h.walk()
				case 18, 19:
					h.touch()
				case 20, 21:
					h.again()
				case 22, 23, 24:
					// a sentence, if there is one, made into a grammar
					h.parse(false)
					h.bindings()
					h.toast()
					h.toast()
				}
			}
			emit(&Case{Kind: "system", Sys: sysOps(r, h)})
		}
	}
}
