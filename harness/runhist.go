package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// An object of a history: what a call made.
type obj struct {
	g     *bnf.Grammar
	table *map[int]map[byte][]parser.ParserOp
	names *map[int]string
	ps    parser.LL1Parser
	of    *obj // parser: what it was made of
	src   []byte
	buf   *bytes.Buffer
	tree  cst.Node
	text  string // tree: what was parsed
	bind  *fromcst.BNFCSTtoASTBindings
}

func grammarDigest(g *bnf.Grammar) uint64 {
	b, _ := json.Marshal(fromGrammar(g))
	return digestString(7, string(b))
}

func tableDigest(t map[int]map[byte][]parser.ParserOp) uint64 {
	h := uint64(11)
	rows := []int{}
	for r := range t {
		rows = append(rows, r)
	}
	sort.Ints(rows)
	for _, r := range rows {
		h = digestInts(h, -1, r)
		for b := 0; b < 256; b++ {
			if ops, ok := t[r][byte(b)]; ok {
				h = digestInts(h, b, len(ops))
				for _, o := range ops {
					h = digestString(h, fmt.Sprintf("%#v", o))
				}
			}
		}
	}
	return h
}

func namesDigest(m map[int]string) uint64 {
	h := uint64(13)
	for _, n := range namesList(m) {
		h = digestString(digestInts(h, n.K), n.V)
	}
	return h
}

func treeDigest(t cst.Node) uint64 {
	h := uint64(17)
	for _, n := range flatten(t) {
		h = digestInts(h, n[:]...)
	}
	return h
}

func bindDigest(b *fromcst.BNFCSTtoASTBindings) uint64 {
	return digestString(19, fmt.Sprintf("%#v", *b))
}

func (o *obj) digest() uint64 {
	if o == nil {
		return 0
	}
	h := uint64(23)
	if o.g != nil {
		h = digestInts(h, 1, int(grammarDigest(o.g)))
	}
	if o.table != nil {
		h = digestInts(h, 2, int(tableDigest(*o.table)))
	}
	if o.names != nil {
		h = digestInts(h, 3, int(namesDigest(*o.names)))
	}
	if o.of != nil {
		h = digestInts(h, 4, int(o.of.digest()))
	}
	if o.src != nil {
		h = digestString(digestInts(h, 5), string(o.src[:cap(o.src)]))
	}
	if o.buf != nil {
		h = digestString(digestInts(h, 6), o.buf.String())
	}
	if o.tree != nil {
		h = digestString(digestInts(h, 7, int(treeDigest(o.tree))), o.text)
	}
	if o.bind != nil {
		h = digestInts(h, 8, int(bindDigest(o.bind)))
	}
	return h
}

func errDigest(err error) int { return small(digestString(3, err.Error())) }

// call makes one call and fills in key, result and digest.
func (h *HistOp) call(at func(int) *obj) *obj {
	h.Watch = []int{}
	h.Touch = []int{}
	var res *obj
	key := func(args ...any) {
		h.Key = fmt.Sprintf("%s %x", h.Op, small(digestString(5, fmt.Sprint(args...))))
	}
	fail := func(err error, clean bool) {
		h.Res = "err"
		h.Digest = errDigest(err)
		if !clean {
			h.Digest++
		}
		h.Note = err.Error()
		h.clean = clean
	}
	skip := func(o *obj, has bool) bool {
		if o == nil || !has {
			h.Res = "skip"
			return true
		}
		return false
	}
	a, b := at(h.A), at(h.B)
	switch h.Op {
	case "grammar":
		g := toGrammar(h.G)
		h.Res = "caller"
		return &obj{g: &g}
	case "table":
		t := toTable(h.Rows)
		m := map[int]string{}
		for _, n := range h.Nm {
			m[n.K] = n.V
		}
		h.Res = "caller"
		return &obj{table: &t, names: &m}
	case "bytes":
		h.Res = "caller"
		// a part of something larger
		whole := bytes.Repeat([]byte{0xA5}, len(h.W)+8)
		copy(whole, toBytes(h.W))
		return &obj{src: whole[:len(h.W)]}
	case "buffer":
		h.Res = "caller"
		bb := bytes.NewBuffer(append([]byte("#"), toBytes(h.W)...))
		bb.Next(1)
		return &obj{buf: bb}
	case "parser":
		if skip(a, a != nil && a.table != nil) {
			return nil
		}
		h.Res = "caller"
		return &obj{ps: parser.NewLL1Parser(*a.table, *a.names), of: a}
	case "touch":
		if skip(a, true) {
			return nil
		}
		h.Res = "caller"
		a.scribble(h.B)
		h.Touch = []int{h.A + 1}
		return nil
	}
	note := guard(&h.Res, func() {
		switch h.Op {
		case "self":
			key()
			g := bnf.SelfGrammar()
			h.Digest = small(grammarDigest(&g))
			res = &obj{g: &g}
		case "bindings":
			key()
			b := fromcst.SelfCSTtoASTBindings()
			h.Digest = small(bindDigest(&b))
			res = &obj{bind: &b}
		case "gen":
			if skip(a, a != nil && a.g != nil) {
				return
			}
			key(grammarDigest(a.g))
			t, n, err := tablegen.FromGrammar(*a.g)
			if err != nil {
				fail(err, t == nil && n == nil)
				return
			}
			h.Digest = small(tableDigest(*t) ^ namesDigest(*n)*3)
			res = &obj{table: t, names: n}
		case "parse":
			if skip(a, a != nil && a.ps != nil) {
				return
			}
			var src any = string(toBytes(h.W))
			text := string(toBytes(h.W))
			if h.B >= 0 {
				if skip(b, b != nil && (b.src != nil || b.buf != nil)) {
					return
				}
				if b.buf != nil {
					src, text = b.buf, b.buf.String()
				} else {
					src, text = b.src, string(b.src)
				}
			}
			key(a.of.digest(), text)
			if h.pause != nil && len(h.Cuts) > 0 {
				src = &pausing{src: []byte(text), cuts: h.Cuts, pause: h.pause}
			}
			t, n, err := a.ps.Parse(src)
			if err != nil {
				fail(err, t == nil && n == nil)
				return
			}
			h.Digest = small(treeDigest(t) ^ namesDigest(*n)*3)
			res = &obj{tree: t, names: n, text: text}
		case "print":
			if skip(a, a != nil && a.g != nil) {
				return
			}
			key(grammarDigest(a.g))
			h.text = a.g.String()
			h.Digest = small(digestString(29, h.text))
		case "toast":
			if skip(a, a != nil && a.bind != nil) || skip(b, b != nil && b.tree != nil) {
				return
			}
			key(bindDigest(a.bind), treeDigest(b.tree), b.text)
			tree := b.tree
			if h.pause != nil {
				tree = own(tree, h.pause)
			}
			g, err := a.bind.ToAST(tree, b.text)
			if err != nil {
				fail(err, g == nil)
				return
			}
			h.Digest = small(grammarDigest(g))
			res = &obj{g: g}
		case "walk":
			if skip(a, a != nil && a.tree != nil) {
				return
			}
			key(treeDigest(a.tree))
			h.visits = nil
			v := &digestVisitor{h: new(uint64), visits: &h.visits, pause: h.pause}
			if h.pause != nil && h.B == 1 {
				v.pause = nil
				cst.Walk(v, own(a.tree, h.pause))
			} else {
				cst.Walk(v, a.tree)
			}
			h.Digest = small(*v.h)
		default:
			panic("unknown call " + h.Op)
		}
		if h.Res == "crash" {
			h.Res = "ok"
		}
	})
	if note != "" {
		h.Note = note
	}
	return res
}

type digestVisitor struct {
	h      *uint64
	depth  int
	visits *[][4]int
	pause  func()
}

func (v *digestVisitor) Visit(n cst.Node) cst.Visitor {
	if v.pause != nil {
		v.pause()
	}
	*v.h = digestInts(*v.h, v.depth, n.Type(), n.Pos(), n.End())
	*v.visits = append(*v.visits, [4]int{v.depth, n.Type(), n.Pos(), n.End()})
	return &digestVisitor{v.h, v.depth + 1, v.visits, v.pause}
}

// scribble overwrites an object the way a caller may.
func (o *obj) scribble(how int) {
	if o.names != nil && (o.table == nil || how%2 == 0) {
		for k := range *o.names {
			if (k+how)%3 == 0 {
				delete(*o.names, k)
			} else {
				(*o.names)[k] = "scribble"
			}
		}
		(*o.names)[1000+how] = "scribble"
		(*o.names)[-2] = "scribble"
	}
	if o.table != nil {
		for r, row := range *o.table {
			for b, ops := range row {
				for i := range ops {
					ops[i] = parser.OpTerminal("scribble")
				}
				if (int(b)+how)%3 == 0 {
					delete(row, b)
				}
			}
			if (r+how)%5 == 4 {
				delete(*o.table, r)
			}
		}
		(*o.table)[0] = map[byte][]parser.ParserOp{'s': {parser.OpTerminal("s")}}
	}
	if o.tree != nil {
		stack := []cst.Node{o.tree}
		for len(stack) > 0 {
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			ch := n.Childs()
			stack = append(stack, ch...)
			for i := range ch {
				if (i+how)%2 == 0 {
					ch[i] = cst.NewNode(4242, 0, 0, nil)
				}
			}
		}
	}
	if o.g != nil {
		for i := range o.g.Rules {
			for s := range o.g.Rules[i].Tail.Sequences {
				ys := o.g.Rules[i].Tail.Sequences[s].Symbols
				for j := range ys {
					if (i+s+j+how)%2 == 0 {
						ys[j] = bnf.SymbolTerminal{Name: "scribble"}
					}
				}
				if how%3 == 0 {
					o.g.Rules[i].Tail.Sequences[s].Symbols = append(ys, bnf.SymbolTerminal{Name: "more"})
				}
			}
			o.g.Rules[i].Tail.Sequences = append(o.g.Rules[i].Tail.Sequences, bnf.Sequence{Symbols: []bnf.Symbol{bnf.SymbolTerminal{Name: "\x01\x02"}}})
			if how%4 == 1 {
				o.g.Rules[i].Head.Name = fmt.Sprintf("scribble%d", i)
			}
		}
	}
	if o.bind != nil {
		for i := range o.bind.IgnoreNodeTypes {
			o.bind.IgnoreNodeTypes[i] = 9
		}
		for i := range o.bind.SymbolTerminalTypes {
			o.bind.SymbolTerminalTypes[i] = 1
		}
		for k := range o.bind.EscapeMapping {
			o.bind.EscapeMapping[k] = "scribble"
		}
		o.bind.EscapeMapping["x"] = "y"
	}
	for i := range o.src {
		o.src[i] ^= 0x15
	}
}

// ---------------------------------------------------------------------------

// capture sends file descriptors 1 and 2 to a file and tells its size.
type capture struct {
	f       *os.File
	out, er int
}

func startCapture() *capture {
	f, err := os.CreateTemp("", "printed")
	if err != nil {
		die(err)
	}
	os.Remove(f.Name())
	c := &capture{f: f}
	c.out, _ = syscall.Dup(1)
	c.er, _ = syscall.Dup(2)
	syscall.Dup3(int(f.Fd()), 1, 0)
	syscall.Dup3(int(f.Fd()), 2, 0)
	return c
}

func (c *capture) size() int {
	n, err := c.f.Seek(0, io.SeekCurrent)
	if err != nil {
		return -1
	}
	return int(n)
}

func (c *capture) stop() {
	syscall.Dup3(c.out, 1, 0)
	syscall.Dup3(c.er, 2, 0)
	syscall.Close(c.out)
	syscall.Close(c.er)
	c.f.Close()
}

// needs marks the calls that call i depends on.
func needs(ops []HistOp, i int) []bool {
	need := make([]bool, len(ops))
	var mark func(i int)
	mark = func(i int) {
		if i < 0 || need[i] {
			return
		}
		need[i] = true
		switch ops[i].Op {
		case "gen", "parser", "print", "walk":
			mark(ops[i].A)
		case "parse", "toast":
			mark(ops[i].A)
			mark(ops[i].B)
		}
	}
	mark(i)
	for again := true; again; {
		again = false
		for j := 0; j < i; j++ {
			if ops[j].Op == "touch" && !need[j] && need[ops[j].A] {
				need[j] = true
				again = true
			}
		}
	}
	return need
}

// solo makes call i and what it needs, and nothing else.
func solo(ops []HistOp, i int) HistOp {
	need := needs(ops, i)
	objs := make([]*obj, len(ops))
	at := func(k int) *obj {
		if k < 0 || k >= len(objs) {
			return nil
		}
		return objs[k]
	}
	for j := 0; j <= i; j++ {
		if need[j] {
			objs[j] = ops[j].call(at)
		}
	}
	return ops[i]
}

// child runs this program on one case in a fresh process.
func child(cmd string, c *Case, out any) (string, error) {
	exe, err := os.Executable()
	if err != nil {
		die(err)
	}
	in, err := json.Marshal(c)
	if err != nil {
		die(err)
	}
	x := exec.Command(exe, cmd)
	x.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	x.Stdout, x.Stderr = &o, &e
	x.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=5 atexit_sleep_ms=0")
	err = x.Run()
	if err == nil {
		if err := json.Unmarshal(o.Bytes(), out); err != nil {
			die("child:", err, o.String(), e.String())
		}
	}
	return e.String(), err
}

func soloMain() {
	c := &Case{}
	if err := json.NewDecoder(os.Stdin).Decode(c); err != nil {
		die(err)
	}
	json.NewEncoder(os.Stdout).Encode(solo(c.Hist, c.Exit))
}

func runHist(c *Case) {
	seeds := []HistOp{}
	for _, i := range c.Perm {
		d := &Case{Hist: c.Hist, Exit: i}
		var h HistOp
		if msg, err := child("solo", d, &h); err != nil {
			h = HistOp{Op: "solo", Res: "crash", Note: msg}
		}
		h.Op = "solo " + h.Op
		h.Who = i + 1
		h.blank()
		h.Watch = []int{}
		h.Touch = []int{}
		seeds = append(seeds, h)
	}
	objs := []*obj{}
	at := func(k int) *obj {
		if k < 0 || k >= len(objs) {
			return nil
		}
		return objs[k]
	}
	cap := startCapture()
	defer cap.stop()
	for i := range c.Hist {
		h := &c.Hist[i]
		before := cap.size()
		objs = append(objs, h.call(at))
		h.Printed = cap.size() - before
		for _, o := range objs {
			h.Watch = append(h.Watch, small(o.digest()))
		}
	}
	for i := range c.Hist {
		c.Hist[i].blank()
	}
	c.Hist = append(seeds, c.Hist...)
}

// blank removes what the specification does not read.
func (h *HistOp) blank() {
	h.W = []int{}
	h.G = Gram{}
	h.Rows = []Row{}
	h.Nm = []Name{}
	if h.Watch == nil {
		h.Watch = []int{}
	}
	if h.Touch == nil {
		h.Touch = []int{}
	}
}

// ---------------------------------------------------------------------------
// Concurrent calls: the calls without goroutine prepare, then each goroutine
// makes its calls, several times over; then all is done again by one.

type concResult struct {
	Hist []HistOp
	Note string
}

func concMain() {
	c := &Case{}
	if err := json.NewDecoder(os.Stdin).Decode(c); err != nil {
		die(err)
	}
	objs := make([]*obj, len(c.Hist))
	at := func(k int) *obj {
		if k < 0 || k >= len(objs) {
			return nil
		}
		return objs[k]
	}
	res := []HistOp{}
	watch := func() []int {
		w := []int{}
		for _, o := range objs {
			w = append(w, small(o.digest()))
		}
		return w
	}
	who := 0
	for i := range c.Hist {
		if c.Hist[i].Who == 0 {
			objs[i] = c.Hist[i].call(at)
			res = append(res, c.Hist[i])
		}
		who = max(who, c.Hist[i].Who)
	}
	before := HistOp{Op: "before", Res: "caller", Watch: watch(), Touch: []int{}}
	lists := make([][]HistOp, who+1)
	start := make(chan struct{})
	var wg sync.WaitGroup
	bare = true // no synchronisation between the goroutines
	for w := 1; w <= who; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for k := 0; k < c.Rounds; k++ {
				for i := range c.Hist {
					if c.Hist[i].Who != w {
						continue
					}
					h := c.Hist[i]
					o := h.callUnguarded(at)
					if o != nil {
						o.scribble(k) // it is the caller's
					}
					lists[w] = append(lists[w], h)
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	bare = false
	after := HistOp{Op: "after", Res: "caller", Watch: watch(), Touch: []int{}}
	res = append(res, before)
	for _, l := range lists {
		res = append(res, l...)
	}
	res = append(res, after)
	for i := range c.Hist {
		if c.Hist[i].Who > 0 {
			h := c.Hist[i]
			h.Who = 0
			h.call(at)
			res = append(res, h)
		}
	}
	out := []HistOp{}
	seen := map[string]bool{}
	for i := range res {
		res[i].blank()
		if res[i].Op != "before" && res[i].Op != "after" {
			res[i].Watch = []int{}
			// equal lines say the same
			k := fmt.Sprint(res[i].Key, res[i].Res, res[i].Digest, res[i].Who)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		out = append(out, res[i])
	}
	json.NewEncoder(os.Stdout).Encode(concResult{Hist: out})
}

// callUnguarded is call without the watchdog, which follows one call only.
func (h *HistOp) callUnguarded(at func(int) *obj) *obj {
	var o *obj
	func() {
		defer func() {
			if r := recover(); r != nil {
				h.Res = "panic"
				h.Note = fmt.Sprint(r)
			}
		}()
		o = h.call(at)
	}()
	return o
}

func runConc(c *Case) {
	var r concResult
	msg, err := child("conc", c, &r)
	c.Races = 0
	for _, rep := range strings.Split(msg, "==================") {
		if strings.Contains(rep, "WARNING: DATA RACE") && racesInLibrary(rep) {
			c.Races++
			if c.Note == "" {
				c.Note = rep
			}
		}
	}
	if err != nil {
		if !strings.Contains(msg, "ll1parser/pkg") && !strings.Contains(msg, "concurrent map") {
			die("child:", err, msg)
		}
		if len(msg) > 4000 {
			msg = msg[:4000]
		}
		c.Note = msg
		c.Res = "crash"
		c.Hist = []HistOp{}
		return
	}
	c.Res = "ok"
	c.Hist = r.Hist
}

// racesInLibrary tells whether the library made one of the accesses, or two
// callers overwriting what each was given made both.
func racesInLibrary(rep string) bool {
	return strings.Contains(rep, "ll1parser/pkg") || strings.Contains(rep, "scribble")
}

func init() {
	runners["hist"] = runHist
	runners["conc"] = runConc
}
