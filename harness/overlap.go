package main

import (
	"fmt"
	"io"
	"math/rand"

	"github.com/TooManySugar/ll1parser/pkg/cst"
)

// Calls that overlap. A call pauses whenever it turns to the caller: when it
// reads from the caller's reader, shows a node to the caller's visitor, asks
// the caller's node for its children. A schedule says who goes on. In mode
// "turns" every call has a goroutine of its own, only one of which runs at any
// time; in mode "nested" a call is made by what the other call turned to.

// pausing is a reader that pauses at every Read.
type pausing struct {
	src   []byte
	cuts  []int
	pause func()
}

func (p *pausing) Read(b []byte) (int, error) {
	p.pause()
	if len(p.cuts) > 0 {
		n := min(p.cuts[0], len(p.src), len(b))
		p.cuts = p.cuts[1:]
		copy(b, p.src[:n])
		p.src = p.src[n:]
		return n, nil
	}
	n := copy(b, p.src)
	p.src = p.src[n:]
	if len(p.src) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// ownNode is a node of the caller's that pauses when asked for its children.
type ownNode struct {
	cst.Node
	childs []cst.Node
	pause  func()
}

func (n *ownNode) Childs() []cst.Node {
	n.pause()
	return n.childs
}

func own(t cst.Node, pause func()) cst.Node {
	o := &ownNode{Node: t, pause: pause}
	for _, c := range t.Childs() {
		o.childs = append(o.childs, own(c, pause))
	}
	return o
}

const maxPauses = 8 // of one call

type overlapRun struct {
	objs []*obj
	cap  *capture
	size int
	out  []SysOp
}

func (v *overlapRun) at(k int) *obj {
	if k < 0 || k >= len(v.objs) {
		return nil
	}
	return v.objs[k]
}

// note records what happened and looks at all objects.
func (v *overlapRun) note(h *SysOp, o *obj) {
	v.objs = append(v.objs, o)
	now := v.cap.size()
	h.Printed, v.size = now-v.size, now
	h.Watch = []int{}
	for _, o := range v.objs {
		h.Watch = append(h.Watch, small(o.digest()))
	}
	v.out = append(v.out, *h)
}

func (v *overlapRun) paused(of *SysOp) {
	h := SysOp{HistOp: HistOp{Op: "pause", A: -1, B: -1, Res: "caller", Who: of.Who}, Rules: []TRule{}, BNames: []BName{},
		Bind: &Bindings{Ignore: []int{}, Term: []int{}, Map: []EscPair{}}}
	h.blank()
	h.Nodes, h.Codes, h.Words, h.Msg, h.Text, h.Visits = [][4]int{}, []int{}, []string{}, []int{}, []int{}, [][4]int{}
	v.note(&h, nil)
}

func runOverlap(c *Case) {
	v := &overlapRun{cap: startCapture()}
	defer v.cap.stop()
	calls := map[int]*SysOp{}
	order := []int{}
	if note := guard(&c.Res, func() {
		bare = true
		defer func() { bare = false }()
		for i := range c.Sys {
			h := &c.Sys[i]
			if h.Who == 0 {
				v.note(h, h.doUnguarded(v.at))
			} else {
				calls[h.Who] = h
				order = append(order, h.Who)
			}
		}
		order = append(append([]int{}, c.Perm...), order...)
		if c.Mode == "nested" {
			v.nested(calls, order)
		} else {
			v.turns(calls, order)
		}
		c.Res = "ok"
	}); note != "" {
		c.Note = note
	}
	c.Sys = v.out
	for i := range c.Sys {
		c.Sys[i].Cuts = nil
	}
}

// doUnguarded is do without the watchdog.
func (h *SysOp) doUnguarded(at func(int) *obj) (o *obj) {
	defer func() {
		if r := recover(); r != nil {
			h.Res = "panic"
			h.HistOp.Note = fmt.Sprint(r)
		}
	}()
	return h.do(at)
}

func (v *overlapRun) turns(calls map[int]*SysOp, order []int) {
	type co struct {
		resume, back chan struct{}
		done         bool
		o            *obj
	}
	cos := map[int]*co{}
	for w, h := range calls {
		x := &co{resume: make(chan struct{}), back: make(chan struct{})}
		cos[w] = x
		left := maxPauses
		h.pause = func() {
			if left > 0 {
				left--
				x.back <- struct{}{}
				<-x.resume
			}
		}
		go func(h *SysOp) {
			<-x.resume
			x.o = h.doUnguarded(v.at)
			x.done = true
			x.back <- struct{}{}
		}(h)
	}
	for i := 0; len(cos) > 0; i++ {
		w := order[i%len(order)]
		x := cos[w]
		if x == nil {
			continue
		}
		x.resume <- struct{}{}
		<-x.back
		if x.done {
			delete(cos, w)
			v.note(calls[w], x.o)
		} else {
			v.paused(calls[w])
		}
	}
}

func (v *overlapRun) nested(calls map[int]*SysOp, order []int) {
	i := 0
	next := func() *SysOp { // a call not yet made, or none
		if i == len(order) {
			return nil
		}
		h := calls[order[i]]
		delete(calls, order[i])
		i++
		return h
	}
	var do func(h *SysOp)
	do = func(h *SysOp) {
		left := maxPauses
		h.pause = func() {
			if left > 0 {
				left--
				v.paused(h)
				if x := next(); x != nil {
					do(x)
				}
			}
		}
		o := h.doUnguarded(v.at)
		v.note(h, o)
	}
	for i < len(order) {
		if h := next(); h != nil {
			do(h)
		}
	}
}

// ---------------------------------------------------------------------------

func init() {
	runners["overlap"] = runOverlap
	plans["overlap"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			h := newHist(r)
			if i%12 == 0 {
				h.selfTree()
			} else {
				g := pickLL1(r, 5)
				n := h.add(HistOp{Op: "grammar", G: g})
				h.grams = append(h.grams, n)
				h.gramw[n] = inputs(r, g)
				h.gen()
				h.parser()
			}
			for len(h.ops) < 5+r.Intn(8) {
				switch r.Intn(12) {
				case 0:
					h.grammar()
				case 1, 2:
					h.gen()
				case 3:
					h.handTable()
				case 4, 5:
					h.parser()
				case 6, 7, 8, 9:
					h.parse(r.Intn(2) == 0)
				case 10:
					h.bindings()
				case 11:
					h.again()
				}
			}
			if r.Intn(2) == 0 {
				h.bindings()
			}
			prepared := len(h.ops)
			k := 2 + r.Intn(3)
			for t := 0; len(h.ops) < prepared+k && t < 50; t++ {
				before := len(h.ops)
				switch r.Intn(12) {
				case 0, 1, 2, 3, 4:
					h.parse(r.Intn(3) == 0)
				case 5, 6:
					h.walk()
				case 7, 8:
					h.toast()
				case 9:
					h.gen()
				case 10:
					h.print()
				case 11:
					if len(h.ops) > prepared { // the same once more
						h.ops = append(h.ops, h.ops[len(h.ops)-1])
					}
				}
				// only of what was prepared
				for _, o := range h.ops[before:] {
					if o.A >= prepared || (o.Op == "toast" && o.B >= prepared) || (o.Op == "parse" && o.B >= prepared) {
						h.ops = h.ops[:before]
						break
					}
				}
			}
			c := &Case{Kind: "overlap", Sys: sysOps(r, h), Perm: []int{}, Mode: []string{"turns", "turns", "nested"}[r.Intn(3)]}
			calls := []int{}
			for j := range c.Sys[prepared:] {
				o := &c.Sys[prepared+j]
				o.Who = j + 1
				calls = append(calls, j+1)
				if o.Op == "walk" {
					o.B = r.Intn(2)
				}
				if o.Op == "parse" && r.Intn(5) > 0 {
					for left := len(o.W); ; {
						n := r.Intn(left + 1)
						if r.Intn(4) == 0 {
							n = min(left, 1)
						}
						o.Cuts = append(o.Cuts, n)
						left -= n
						if left == 0 || len(o.Cuts) > 4 {
							break
						}
					}
				}
			}
			if len(calls) == 0 {
				continue
			}
			for j := 0; j < 20; j++ {
				c.Perm = append(c.Perm, calls[r.Intn(len(calls))])
			}
			emit(c)
		}
	}
}
