package main

import "math/rand"

// ---------------------------------------------------------------------------
// Trees and bindings.

type treeGen struct {
	r     *rand.Rand
	text  []byte
	b     *Bindings
	plain []int // kinds bound to nothing
}

func (t *treeGen) leaf(s string) *TNode {
	st := len(t.text)
	t.text = append(t.text, s...)
	return &TNode{T: -1, S: st, X: len(t.text), C: []*TNode{}}
}

func (t *treeGen) nothing() *TNode {
	return &TNode{T: -2, S: len(t.text), X: len(t.text), C: []*TNode{}}
}

// node makes a node around what f adds below it.
func (t *treeGen) node(kind int, f func(n *TNode)) *TNode {
	n := &TNode{T: kind, S: len(t.text), C: []*TNode{}}
	f(n)
	if len(n.C) == 0 {
		n.C = append(n.C, t.nothing())
	}
	n.X = len(t.text)
	return n
}

func (t *treeGen) some(xs []int) int { return xs[t.r.Intn(len(xs))] }

// wrap puts some nodes of unbound kinds around one.
func (t *treeGen) wrap(f func() *TNode) *TNode {
	if t.r.Intn(3) > 0 {
		return f()
	}
	return t.node(t.some(t.plain), func(n *TNode) {
		t.fill(n)
		n.C = append(n.C, t.wrap(f))
		t.fill(n)
	})
}

// fill adds literal text that has no role.
func (t *treeGen) fill(n *TNode) {
	if t.r.Intn(3) == 0 {
		n.C = append(n.C, t.leaf([]string{" ", "::=", "|", "\n", "\xff"}[t.r.Intn(5)]))
	}
}

// ignored adds a subtree of an ignored kind that has everything in it.
func (t *treeGen) ignored(n *TNode, f func() *TNode) {
	if len(t.b.Ignore) > 0 && t.r.Intn(4) == 0 {
		n.C = append(n.C, t.node(t.some(t.b.Ignore), func(n *TNode) {
			n.C = append(n.C, t.wrap(f))
		}))
	}
}

func (t *treeGen) word() string {
	n := 1 + t.r.Intn(4)
	b := []byte{}
	for ; n > 0; n-- {
		if t.r.Intn(8) == 0 {
			b = append(b, byte(t.r.Intn(256)))
		} else {
			b = append(b, letters[t.r.Intn(len(letters))])
		}
	}
	return string(b)
}

func (t *treeGen) name(kind int) *TNode {
	return t.node(kind, func(n *TNode) {
		for k := 1 + t.r.Intn(3); k > 0; k-- {
			n.C = append(n.C, t.wrap(func() *TNode { return t.leaf(t.word()) }))
		}
	})
}

func (t *treeGen) escape() *TNode {
	return t.node(t.b.Esc, func(n *TNode) {
		n.C = append(n.C, t.leaf("\\"))
		if t.r.Intn(40) == 0 {
			return // no character
		}
		n.C = append(n.C, t.wrap(func() *TNode {
			return t.node(t.b.EscCh, func(n *TNode) {
				if len(t.b.Map) > 0 && t.r.Intn(25) > 0 {
					n.C = append(n.C, t.leaf(string(toBytes(t.b.Map[t.r.Intn(len(t.b.Map))].From))))
				} else {
					n.C = append(n.C, t.leaf(t.word()))
				}
			})
		}))
		if t.r.Intn(10) == 0 {
			n.C = append(n.C, t.node(t.b.EscCh, func(n *TNode) { n.C = append(n.C, t.leaf("zz")) }))
		}
	})
}

func (t *treeGen) terminal() *TNode {
	kind := t.some(t.b.Term)
	if kind == -1 {
		return t.leaf(t.word())
	}
	return t.node(kind, func(n *TNode) {
		for k := t.r.Intn(4); k > 0; k-- {
			n.C = append(n.C, t.wrap(func() *TNode {
				if t.r.Intn(3) == 0 {
					return t.escape()
				}
				return t.leaf(t.word())
			}))
		}
	})
}

func (t *treeGen) symbol() *TNode {
	return t.node(t.b.Sym, func(n *TNode) {
		t.ignored(n, t.terminal)
		switch x := t.r.Intn(30); {
		case x == 0: // nothing that makes a symbol
		case x == 1: // both
			n.C = append(n.C, t.name(t.b.NT), t.wrap(t.terminal))
		case x == 2: // two literals
			n.C = append(n.C, t.wrap(t.terminal), t.wrap(t.terminal))
		case x < 16:
			n.C = append(n.C, t.wrap(t.terminal))
		default:
			n.C = append(n.C, t.wrap(func() *TNode { return t.name(t.b.NT) }))
		}
		t.ignored(n, func() *TNode { return t.name(t.b.NT) })
	})
}

func (t *treeGen) list(kind int, most int, item func() *TNode) *TNode {
	return t.node(kind, func(n *TNode) {
		k := 1 + t.r.Intn(most)
		if t.r.Intn(20) == 0 {
			k = 0
		}
		at := n
		for ; k > 0; k-- {
			t.fill(at)
			at.C = append(at.C, t.wrap(item))
			t.ignored(at, item)
			if t.r.Intn(2) == 0 {
				// lists nest to the right, as parsers make them
				m := &TNode{T: t.some(t.plain), S: len(t.text), C: []*TNode{}}
				at.C = append(at.C, m)
				at = m
			}
		}
		t.close(n)
	})
}

// close ends nodes left open on the right.
func (t *treeGen) close(n *TNode) {
	if len(n.C) == 0 && n.T != -1 && n.T != -2 {
		n.C = append(n.C, t.nothing())
	}
	if n.X < len(t.text) && len(n.C) > 0 {
		n.X = len(t.text)
		t.close(n.C[len(n.C)-1])
	}
}

func (t *treeGen) tail() *TNode {
	return t.list(t.b.Tail, 3, func() *TNode { return t.list(t.b.Seq, 3, t.symbol) })
}

func (t *treeGen) rule() *TNode {
	return t.node(t.b.Rule, func(n *TNode) {
		x := t.r.Intn(40)
		t.ignored(n, func() *TNode { return t.name(t.b.Head) })
		if x == 2 {
			n.C = append(n.C, t.wrap(t.tail))
		}
		if x != 0 {
			n.C = append(n.C, t.wrap(func() *TNode { return t.name(t.b.Head) }))
		}
		t.fill(n)
		t.ignored(n, t.tail)
		if x != 1 {
			n.C = append(n.C, t.wrap(t.tail))
		}
		if x == 3 {
			n.C = append(n.C, t.wrap(t.tail))
		}
		if x == 4 {
			n.C = append(n.C, t.wrap(func() *TNode { return t.name(t.b.Head) }))
		}
		if x == 5 {
			n.C = append(n.C, t.wrap(t.rule))
		}
	})
}

func randBindings(r *rand.Rand) (*Bindings, []int) {
	p := []int{}
	if r.Intn(2) == 0 {
		p = r.Perm(40)
	} else {
		for len(p) < 20 {
			x := []int{r.Intn(1000), -3 - r.Intn(50), r.Intn(30)}[r.Intn(3)]
			dup := false
			for _, y := range p {
				dup = dup || y == x
			}
			if !dup {
				p = append(p, x)
			}
		}
	}
	b := &Bindings{Rule: p[0], Head: p[1], Tail: p[2], Seq: p[3], Sym: p[4], NT: p[5], Esc: p[6], EscCh: p[7], Ignore: []int{}}
	for k := 1 + r.Intn(3); k > 0; k-- {
		b.Term = append(b.Term, p[7+k])
	}
	r.Shuffle(len(b.Term), func(i, j int) { b.Term[i], b.Term[j] = b.Term[j], b.Term[i] })
	if r.Intn(8) == 0 {
		b.Term = []int{-1}
	}
	if r.Intn(3) == 0 {
		b.NT = b.Head // as in the shipped bindings
	}
	if r.Intn(12) == 0 {
		b.EscCh = b.Esc
	}
	if r.Intn(12) == 0 {
		b.Seq = b.Tail
	}
	for k := r.Intn(4); k > 0; k-- {
		b.Ignore = append(b.Ignore, p[12+r.Intn(4)])
	}
	if r.Intn(6) == 0 {
		// a kind that has a role, too
		role := []int{b.Head, b.Tail, b.Seq, b.Sym, b.NT, b.Esc, b.EscCh, b.Term[0], b.Rule, -1, -2}
		b.Ignore = append(b.Ignore, role[r.Intn(len(role))])
		r.Shuffle(len(b.Ignore), func(i, j int) { b.Ignore[i], b.Ignore[j] = b.Ignore[j], b.Ignore[i] })
	}
	for k := r.Intn(4); k > 0; k-- {
		from := []int{int(letters[r.Intn(len(letters))])}
		for r.Intn(4) == 0 {
			from = append(from, r.Intn(256))
		}
		to := []int{}
		for r.Intn(3) > 0 {
			to = append(to, r.Intn(256))
		}
		dup := false
		for _, e := range b.Map {
			dup = dup || string(toBytes(e.From)) == string(toBytes(from))
		}
		if !dup {
			b.Map = append(b.Map, EscPair{from, to})
		}
	}
	if b.Map == nil {
		b.Map = []EscPair{}
	}
	return b, p[16:20]
}

// wild makes a tree of any shape out of the kinds there are.
func (t *treeGen) wild(depth int, inside bool) *TNode {
	b := t.b
	if depth == 0 || t.r.Intn(5) == 0 {
		if t.r.Intn(4) == 0 {
			return t.nothing()
		}
		if len(b.Map) > 0 && t.r.Intn(2) == 0 {
			return t.leaf(string(toBytes(b.Map[t.r.Intn(len(b.Map))].From)))
		}
		return t.leaf(t.word())
	}
	kinds := []int{b.Rule, b.Head, b.Tail, b.Seq, b.Sym, b.NT, b.Esc, b.EscCh}
	kinds = append(kinds, b.Term...)
	kinds = append(kinds, t.plain...)
	if !inside {
		kinds = append(kinds, b.Ignore...)
	}
	kind := t.some(kinds)
	for kind == -1 {
		kind = t.some(t.plain)
	}
	for _, x := range append([]int{b.Head, b.NT, b.Esc}, b.Term...) {
		inside = inside || x == kind
	}
	return t.node(kind, func(n *TNode) {
		for k := 1 + t.r.Intn(3); k > 0; k-- {
			n.C = append(n.C, t.wild(depth-1, inside))
		}
	})
}

// escapesInNames tells whether a name has an escape sequence under it; such
// trees are left out.
func (t *treeGen) escapesInNames(n *TNode, in bool) bool {
	if in && n.T == t.b.Esc {
		return true
	}
	in = in || n.T == t.b.Head || n.T == t.b.NT
	for _, c := range n.C {
		if t.escapesInNames(c, in) {
			return true
		}
	}
	return false
}

func randTree(r *rand.Rand, nodes int) *TNode {
	// each new node goes below the last node or one of its ancestors
	root := &TNode{T: 0, C: []*TNode{}}
	path := []*TNode{root}
	deep := r.Intn(3)
	for i := 1; i < nodes; i++ {
		cut := len(path)
		switch deep {
		case 0:
			cut = 1 + r.Intn(len(path))
		case 1:
			if r.Intn(8) == 0 {
				cut = 1 + r.Intn(len(path))
			}
		case 2:
			cut = 1
			if r.Intn(3) == 0 {
				cut = 1 + r.Intn(len(path))
			}
		}
		path = path[:cut]
		n := &TNode{T: i, C: []*TNode{}}
		path[cut-1].C = append(path[cut-1].C, n)
		path = append(path, n)
	}
	return root
}

func relabel(r *rand.Rand, root *TNode, n int) {
	p := r.Perm(n)
	i := 0
	stack := []*TNode{root}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		x.T = p[i] - 2
		i++
		for k := len(x.C) - 1; k >= 0; k-- {
			stack = append(stack, x.C[k])
		}
	}
}

// allTrees lists the ordered trees with n nodes.
func allTrees(n int) []*TNode {
	var forests func(n int) [][]*TNode
	forests = func(n int) [][]*TNode {
		if n == 0 {
			return [][]*TNode{{}}
		}
		res := [][]*TNode{}
		for first := 1; first <= n; first++ {
			for _, inner := range forests(first - 1) {
				for _, rest := range forests(n - first) {
					t := &TNode{C: inner}
					res = append(res, append([]*TNode{t}, rest...))
				}
			}
		}
		return res
	}
	res := []*TNode{}
	for _, f := range forests(n - 1) {
		res = append(res, &TNode{C: f})
	}
	return res
}

func copyTree(t *TNode) *TNode {
	n := &TNode{T: t.T, S: t.S, X: t.X, C: []*TNode{}}
	for _, c := range t.C {
		n.C = append(n.C, copyTree(c))
	}
	return n
}

func init() {
	plans["toast"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; {
			b, plain := randBindings(r)
			t := &treeGen{r: r, b: b, plain: plain, text: []byte(t0(r))}
			var root *TNode
			switch i % 4 {
			case 0, 1, 2:
				root = t.list(t.some(plain), 1+r.Intn(4), t.rule)
				if i%40 == 0 {
					root = t.rule()
				}
			case 3:
				root = t.wild(3+r.Intn(4), false)
			}
			if t.escapesInNames(root, false) {
				continue
			}
			c := &Case{Kind: "toast", Tree: root, Bind: b, Text: toInts(t.text)}
			if r.Intn(3) == 0 {
				c.Tag = []string{"own", "mix"}[r.Intn(2)]
			}
			c.Text = append(c.Text, toInts([]byte(t0(r)))...)
			emit(c)
			i++
		}
	}
	plans["walk"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			k := 1 + r.Intn(12)
			if i%5 == 0 {
				k = 1 + r.Intn(80)
			}
			if i%200 == 0 {
				k = 400
			}
			root := randTree(r, k)
			relabel(r, root, k)
			c := &Case{Kind: "walk", Tree: root, Tag: []string{"lib", "own", "mix"}[r.Intn(3)], Mode: []string{"node", "time"}[r.Intn(2)]}
			cut := 2 + r.Intn(12)
			for j := 0; j < k; j++ {
				x := r.Intn(4)
				if r.Intn(cut) == 0 {
					x = -1
				}
				c.Perm = append(c.Perm, x)
			}
			emit(c)
		}
	}
	// all trees of size nodes, all answers out of none, itself, another
	plans["walkall"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for k := 1; k <= size; k++ {
			for _, shape := range allTrees(k) {
				total := 1
				for j := 0; j < k; j++ {
					total *= 3
				}
				for s := 0; s < total; s++ {
					c := &Case{Kind: "walk", Tree: copyTree(shape), Tag: []string{"lib", "own", "mix"}[r.Intn(3)], Mode: []string{"node", "time"}[(s/2)%2]}
					relabel(r, c.Tree, k)
					for j, x := 0, s; j < k; j, x = j+1, x/3 {
						c.Perm = append(c.Perm, []int{0, -1, 2 + j}[x%3])
					}
					emit(c)
				}
			}
		}
	}
	plans["walkbig"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			root := &TNode{C: []*TNode{}}
			k := 300
			switch i % 3 {
			case 0:
				at := root
				for j := 1; j < k; j++ {
					x := &TNode{C: []*TNode{}}
					at.C = append(at.C, x)
					if r.Intn(3) == 0 {
						y := &TNode{C: []*TNode{}}
						at.C = append(at.C, y)
						j++
						if r.Intn(2) == 0 {
							x = y
						}
					}
					at = x
				}
			case 1:
				for j := 1; j < k; j++ {
					root.C = append(root.C, &TNode{C: []*TNode{}})
				}
			case 2:
				root = randTree(r, k)
			}
			c := &Case{Kind: "walk", Tree: root, Tag: "own", Mode: []string{"node", "time"}[r.Intn(2)]}
			relabel(r, root, 2*k)
			for j := 0; j < 2*k; j++ {
				x := r.Intn(3)
				if r.Intn(60) == 0 {
					x = -1
				}
				c.Perm = append(c.Perm, x)
			}
			emit(c)
		}
	}
	plans["set"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		for i := 0; i < n; i++ {
			c := &Case{Kind: "set"}
			ab := alphabet(r)
			if r.Intn(2) == 0 {
				ab = boundary
			}
			val := func() int {
				if r.Intn(3) == 0 {
					return r.Intn(256)
				}
				return append(ab, 0)[r.Intn(len(ab)+1)]
			}
			for k := 8 + r.Intn(30); k > 0; k-- {
				o := SetOp{A: r.Intn(5), B: r.Intn(5), D: r.Intn(5), V: val(), Vs: []int{}}
				o.Op = []string{"new", "add", "add", "add", "remove", "union", "copy", "contains", "members", "members", "len",
					"bytes", "string", "equal", "subset", "superset"}[r.Intn(16)]
				if o.Op == "new" {
					m := r.Intn(6)
					if r.Intn(8) == 0 {
						m = r.Intn(300)
					}
					for ; m > 0; m-- {
						o.Vs = append(o.Vs, val())
					}
				}
				c.SetOps = append(c.SetOps, o)
			}
			for a := 0; a < 5; a++ {
				c.SetOps = append(c.SetOps, SetOp{Op: []string{"members", "bytes"}[a%2], A: a, Vs: []int{}})
			}
			emit(c)
		}
	}
	// every byte value: singletons, complements, pairs of words
	plans["setall"] = func(r *rand.Rand, n, size int, emit func(*Case)) {
		full := []int{}
		for v := 0; v < 256; v++ {
			full = append(full, v)
		}
		obs := func(a int) []SetOp {
			res := []SetOp{}
			for _, op := range []string{"members", "len", "bytes", "string"} {
				res = append(res, SetOp{Op: op, A: a, Vs: []int{}})
			}
			return res
		}
		for v := 0; v < 256; v++ {
			w := (v + 64*(1+r.Intn(3)) + r.Intn(2)) % 256
			c := &Case{Kind: "set"}
			add := func(o ...SetOp) {
				for i := range o {
					if o[i].Vs == nil {
						o[i].Vs = []int{}
					}
				}
				c.SetOps = append(c.SetOps, o...)
			}
			add(SetOp{Op: "add", A: 0, V: v})
			add(obs(0)...)
			add(SetOp{Op: "new", D: 1, Vs: full}, SetOp{Op: "remove", A: 1, V: v})
			add(obs(1)...)
			add(SetOp{Op: "subset", A: 0, B: 1}, SetOp{Op: "superset", A: 1, B: 0}, SetOp{Op: "union", D: 2, A: 0, B: 1})
			add(obs(2)...)
			add(SetOp{Op: "add", A: 3, V: w}, SetOp{Op: "union", D: 4, A: 3, B: 0}, SetOp{Op: "equal", A: 3, B: 0}, SetOp{Op: "equal", A: 4, B: 0},
				SetOp{Op: "subset", A: 0, B: 4}, SetOp{Op: "subset", A: 4, B: 0}, SetOp{Op: "superset", A: 4, B: 3}, SetOp{Op: "superset", A: 0, B: 4},
				SetOp{Op: "remove", A: 4, V: w}, SetOp{Op: "equal", A: 4, B: 0}, SetOp{Op: "equal", A: 0, B: 4})
			add(obs(4)...)
			add(SetOp{Op: "remove", A: 0, V: v}, SetOp{Op: "add", A: 4, V: v}, SetOp{Op: "remove", A: 4, V: (v + 1) % 256})
			add(obs(0)...)
			add(obs(4)...)
			emit(c)
		}
	}
}

func t0(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return ""
	}
	return "\n \xfe"[:r.Intn(4)]
}
