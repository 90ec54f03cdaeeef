package main

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

var selfParser parser.LL1Parser

func readParser() parser.LL1Parser {
	if selfParser == nil {
		table, names, err := tablegen.FromGrammar(bnf.SelfGrammar())
		if err != nil || table == nil || names == nil {
			panic(fmt.Sprint("no table for the grammar of the notation: ", err))
		}
		selfParser = parser.NewLL1Parser(*table, *names)
	}
	return selfParser
}

// readText is what the library does with text in its notation.
func readText(text string) (*bnf.Grammar, error) {
	tree, _, err := readParser().Parse(text)
	if err != nil {
		return nil, err
	}
	return fromcst.SelfCSTtoASTBindings().ToAST(tree, text)
}

func runText(c *Case) {
	text := string(toBytes(c.Text))
	var g *bnf.Grammar
	var err error
	c.Rules = []TRule{}
	note := guard(&c.Res, func() {
		g, err = readText(text)
		c.Res = "ok"
		if err != nil {
			c.Res = "err"
			c.Clean = g == nil
		} else if g == nil {
			c.Res = "nil"
		} else {
			c.Rules = fromGrammar(g)
		}
	})
	c.Note = note
	if err != nil {
		c.Note = err.Error()
	}
}

// runPrint prints a grammar, reads the text back and prints the result.
func runPrint(c *Case) {
	g := toGrammar(c.G)
	var err error
	var h *bnf.Grammar
	note := guard(&c.Res, func() {
		text := g.String()
		c.Printed = toInts([]byte(text))
		c.Res = "err"
		h, err = readText(text)
		if err == nil && h != nil {
			c.Rules = fromGrammar(h)
			c.Again = toInts([]byte(h.String()))
			c.Res = "ok"
		}
	})
	c.Note = note
	if err != nil {
		c.Note = err.Error()
	}
}

// otherNode is a tree node of the caller's own making.
type otherNode struct {
	t, s, x int
	c       []cst.Node
}

func (n *otherNode) Type() int          { return n.t }
func (n *otherNode) Pos() int           { return n.s }
func (n *otherNode) End() int           { return n.x }
func (n *otherNode) Childs() []cst.Node { return n.c }

// freshNode lists its children anew every time.
type freshNode struct {
	otherNode
	calls int
}

func (n *freshNode) Childs() []cst.Node {
	n.calls++
	return append(make([]cst.Node, 0, len(n.c)+n.calls%3), n.c...)
}

// wrapNode is a node of the library's with other children.
type wrapNode struct {
	cst.Node
	c []cst.Node
}

func (n wrapNode) Childs() []cst.Node { return n.c }

// valueNode is a node that has its place and children in a table.
type valueNode int

var valueNodes []otherNode

func (n valueNode) Type() int          { return valueNodes[n].t }
func (n valueNode) Pos() int           { return valueNodes[n].s }
func (n valueNode) End() int           { return valueNodes[n].x }
func (n valueNode) Childs() []cst.Node { return valueNodes[n].c }

// buildTree makes the tree and numbers its nodes in preorder, from 1.
func buildTree(t *TNode, tag string, num map[cst.Node]int, flat *[]CNode) cst.Node {
	*flat = append(*flat, CNode{t.T, t.S, t.X, []int{}})
	me := len(*flat) - 1
	ch := []cst.Node{}
	for _, k := range t.C {
		(*flat)[me].C = append((*flat)[me].C, len(*flat)+1)
		ch = append(ch, buildTree(k, tag, num, flat))
	}
	if len(ch) == 0 && t.T%2 == 0 {
		ch = nil
	}
	var n cst.Node
	o := otherNode{t.T, t.S, t.X, ch}
	kind := 0
	if tag == "own" {
		kind = 1
	}
	if tag == "mix" {
		// nodes of all kinds below each other
		kind = (me*7 + t.T) % 5
	}
	switch kind {
	default:
		n = cst.NewNode(t.T, t.S, t.X, ch)
	case 1:
		n = &o
		num[n] = me + 1
	case 2:
		n = &freshNode{otherNode: o}
	case 3:
		n = wrapNode{cst.NewNode(t.T, t.S, t.X, []cst.Node{}), ch}
	case 4:
		valueNodes = append(valueNodes, o)
		n = valueNode(len(valueNodes) - 1)
	}
	return n
}

// tree is the tree of a case, given nested or flat.
func (c *Case) tree() *TNode {
	if c.Tree != nil {
		return c.Tree
	}
	ns := make([]*TNode, len(c.Flat))
	for i, f := range c.Flat {
		ns[i] = &TNode{T: f[0], S: f[1], X: f[2], C: []*TNode{}}
		if f[3] > 0 {
			p := ns[f[3]-1]
			p.C = append(p.C, ns[i])
		}
	}
	c.Flat = nil
	return ns[0]
}

func (b *Bindings) toLib() fromcst.BNFCSTtoASTBindings {
	m := map[string]string{}
	for _, p := range b.Map {
		m[string(toBytes(p.From))] = string(toBytes(p.To))
	}
	return fromcst.BNFCSTtoASTBindings{
		IgnoreNodeTypes:         append([]int{}, b.Ignore...),
		RuleType:                b.Rule,
		RuleHeadType:            b.Head,
		RuleTailType:            b.Tail,
		ExpressionSequencesType: b.Seq,
		SequencesSymbolType:     b.Sym,
		SymbolTerminalTypes:     append([]int{}, b.Term...),
		SymbolNonTerminalType:   b.NT,
		EscapeSequenceType:      b.Esc,
		EscapeCharacterType:     b.EscCh,
		EscapeMapping:           m,
	}
}

func runToast(c *Case) {
	c.TN = []CNode{}
	valueNodes = nil
	root := buildTree(c.tree(), c.Tag, map[cst.Node]int{}, &c.TN)
	text := string(toBytes(c.Text))
	b := c.Bind.toLib()
	var g *bnf.Grammar
	var err error
	note := guard(&c.Res, func() {
		g, err = b.ToAST(root, text)
		c.Res = "ok"
		if err != nil {
			c.Res = "err"
			c.Clean = g == nil
		} else if g == nil {
			c.Res = "nil"
		} else {
			c.Rules = fromGrammar(g)
		}
	})
	c.Note = note
	if err != nil {
		c.Note = err.Error()
	}
	c.Tree = nil // the specification reads tn
}

// A visitor answers by the script: entry n says what a visit of node n (or
// the n-th visit, in mode "time") returns, a new visitor of that label,
// itself (0) or none (-1). Visitors are values of many types; those of label 1
// are often the zero value of theirs.
type walkState struct {
	c    *Case
	seen int
	num  func(cst.Node) int
}

var walking *walkState

type (
	ptrVisitor   struct{ label int }
	structVisit  struct{ labels [2]int }
	sliceVisitor struct{ label []int } // cannot be compared
	numVisitor   int                   // label 1 is 0
	nilVisitor   struct{}              // label 1, as a nil pointer
	emptyVisitor struct{}              // label 1
	funcVisitor  func() int
	mapVisitor   map[string]int
	textVisitor  string // label 1 is ""
)

func (v *ptrVisitor) Visit(n cst.Node) cst.Visitor  { return visit(v, v.label, n) }
func (v structVisit) Visit(n cst.Node) cst.Visitor  { return visit(v, v.labels[0]+1, n) }
func (v sliceVisitor) Visit(n cst.Node) cst.Visitor { return visit(v, len(v.label)+1, n) }
func (v numVisitor) Visit(n cst.Node) cst.Visitor   { return visit(v, int(v)+1, n) }
func (v *nilVisitor) Visit(n cst.Node) cst.Visitor  { return visit(v, 1, n) }
func (v emptyVisitor) Visit(n cst.Node) cst.Visitor { return visit(v, 1, n) }
func (v funcVisitor) Visit(n cst.Node) cst.Visitor  { return visit(v, v(), n) }
func (v mapVisitor) Visit(n cst.Node) cst.Visitor   { return visit(v, v["label"]+1, n) }
func (v textVisitor) Visit(n cst.Node) cst.Visitor  { return visit(v, len(v)+1, n) }

func newVisitor(label, kind int) cst.Visitor {
	switch kind % 9 {
	case 1:
		return structVisit{[2]int{label - 1, 0}}
	case 2:
		return sliceVisitor{make([]int, label-1)}
	case 3:
		return numVisitor(label - 1)
	case 4:
		if label == 1 {
			return (*nilVisitor)(nil)
		}
	case 5:
		if label == 1 {
			return emptyVisitor{}
		}
	case 6:
		return funcVisitor(func() int { return label })
	case 7:
		if label == 1 {
			return mapVisitor(nil)
		}
		return mapVisitor{"label": label - 1}
	case 8:
		return textVisitor(strings.Repeat("x", label-1))
	}
	return &ptrVisitor{label}
}

func visit(v cst.Visitor, label int, n cst.Node) cst.Visitor {
	w := walking
	if len(w.c.Visits) > 1000000 {
		panic("too many visits")
	}
	node := w.num(n)
	id := node
	ret := -1
	if w.c.Mode == "time" {
		// the answer depends on how many visits there were
		id = len(w.c.Visits)%len(w.c.Perm) + 1
	}
	if id >= 1 && id <= len(w.c.Perm) {
		ret = w.c.Perm[id-1]
	}
	if ret == 0 {
		ret = label
	}
	w.c.Visits = append(w.c.Visits, Visit{node, label, ret})
	if ret < 0 {
		return nil
	}
	if ret == label {
		return v
	}
	return newVisitor(ret, w.c.ID+ret)
}

func runWalk(c *Case) {
	c.TN = []CNode{}
	num := map[cst.Node]int{}
	own := c.Tag == "own"
	valueNodes = nil
	root := buildTree(c.tree(), c.Tag, num, &c.TN)
	w := &walkState{c: c}
	if own {
		w.num = func(n cst.Node) int { return num[n] }
	} else {
		// nodes of the library cannot be compared; the trees have
		// distinct types
		byType := map[int]int{}
		for i, n := range c.TN {
			byType[n.T] = i + 1
		}
		w.num = func(n cst.Node) int { return byType[n.Type()] }
	}
	c.Note = guard(&c.Res, func() {
		walking = w
		cst.Walk(newVisitor(1, c.ID+1), root)
		c.Res = "ok"
	})
	c.Tree = nil
}

func init() {
	runners["text"] = runText
	runners["print"] = runPrint
	runners["toast"] = runToast
	runners["walk"] = runWalk
}
