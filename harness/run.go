package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

func toBytes(v []int) []byte {
	res := make([]byte, len(v))
	for i, x := range v {
		res[i] = byte(x)
	}
	return res
}

func toInts(b []byte) []int {
	res := make([]int, len(b))
	for i, x := range b {
		res[i] = int(x)
	}
	return res
}

func toGrammar(g Gram) bnf.Grammar {
	res := bnf.Grammar{}
	for _, r := range g {
		rule := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: r.Head}}
		for _, alt := range r.Alts {
			seq := bnf.Sequence{}
			for _, s := range alt {
				switch s.K {
				case "t":
					seq.Symbols = append(seq.Symbols, bnf.SymbolTerminal{Name: string(toBytes(s.V))})
				case "n":
					seq.Symbols = append(seq.Symbols, bnf.SymbolNonTerminal{Name: s.N})
				case "e":
					seq.Symbols = append(seq.Symbols, bnf.SymbolNothing{})
				}
			}
			rule.Tail.Sequences = append(rule.Tail.Sequences, seq)
		}
		res.Rules = append(res.Rules, rule)
	}
	return res
}

func fromGrammar(g *bnf.Grammar) []TRule {
	res := []TRule{}
	for _, r := range g.Rules {
		t := TRule{Head: toInts([]byte(r.Head.Name)), Alts: [][]TSym{}}
		for _, s := range r.Tail.Sequences {
			alt := []TSym{}
			for _, y := range s.Symbols {
				switch v := y.(type) {
				case bnf.SymbolTerminal:
					alt = append(alt, TSym{"t", toInts([]byte(v.Name))})
				case bnf.SymbolNonTerminal:
					alt = append(alt, TSym{"n", toInts([]byte(v.Name))})
				case bnf.SymbolNothing:
					alt = append(alt, TSym{"e", []int{}})
				default:
					alt = append(alt, TSym{"unknown", []int{}})
				}
			}
			t.Alts = append(t.Alts, alt)
		}
		res = append(res, t)
	}
	return res
}

func toTable(rows []Row) map[int]map[byte][]parser.ParserOp {
	res := map[int]map[byte][]parser.ParserOp{}
	for _, r := range rows {
		m := map[byte][]parser.ParserOp{}
		for _, c := range r.Cells {
			var ops []parser.ParserOp
			for _, o := range c.Ops {
				if o.K == "n" {
					ops = append(ops, parser.OpNonTerminal(o.I))
				} else {
					ops = append(ops, parser.OpTerminal(string(toBytes(o.V))))
				}
			}
			// a list made by the library, or one of the caller's; an empty
			// one of these is nil
			if (r.R+c.B)%2 == 0 {
				ops = parser.NewParserOpList(ops...)
			}
			m[byte(c.B)] = ops
		}
		if len(m) == 0 && r.R%2 == 1 {
			m = nil
		}
		res[r.R] = m
	}
	return res
}

func namesList(m map[int]string) []Name {
	res := []Name{}
	for k, v := range m {
		res = append(res, Name{k, v})
	}
	sort.Slice(res, func(i, j int) bool { return res[i].K < res[j].K })
	return res
}

func flatten(root cst.Node) [][4]int {
	res := [][4]int{}
	stack := []cst.Node{root}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if n == nil {
			res = append(res, [4]int{-99, 0, 0, 0})
			continue
		}
		ch := n.Childs()
		res = append(res, [4]int{n.Type(), n.Pos(), n.End(), len(ch)})
		for i := len(ch) - 1; i >= 0; i-- {
			stack = append(stack, ch[i])
		}
		if len(res) > 5000000 {
			break
		}
	}
	return res
}

// withChildren rebuilds child indices (1-based) from the preorder list.
func withChildren(nodes [][4]int) []CNode {
	res := make([]CNode, len(nodes))
	type open struct{ i, left int }
	stack := []open{}
	for i, n := range nodes {
		res[i] = CNode{n[0], n[1], n[2], []int{}}
		for len(stack) > 0 && stack[len(stack)-1].left == 0 {
			stack = stack[:len(stack)-1]
		}
		if len(stack) > 0 {
			p := &stack[len(stack)-1]
			res[p.i].C = append(res[p.i].C, i+1)
			p.left--
		}
		stack = append(stack, open{i, n[3]})
	}
	return res
}

var codeRe = regexp.MustCompile(`\((\d+)\)`)
var wordRe = regexp.MustCompile(`[A-Za-z0-9_-]+`)

func errCodes(s string) []int {
	res := []int{}
	for _, m := range codeRe.FindAllStringSubmatch(s, -1) {
		x, err := strconv.Atoi(m[1])
		if err == nil {
			res = append(res, x)
		}
	}
	return res
}

func errWords(s string) []string {
	res := wordRe.FindAllString(s, -1)
	if res == nil {
		res = []string{}
	}
	return res
}

// ---------------------------------------------------------------------------
// Calls into the library. Each is guarded: a panic becomes a result, and the
// watchdog turns a call that does not return into one.

type guardT struct {
	slot  *string
	start time.Time
}

var current atomic.Pointer[guardT]
var crashLog func()

// bare makes guard do nothing, where its own memory accesses would order
// those of goroutines.
var bare bool

func guard(slot *string, f func()) (note string) {
	*slot = "crash"
	if bare {
		f()
		return
	}
	if crashLog != nil {
		crashLog()
	}
	current.Store(&guardT{slot, time.Now()})
	defer func() {
		current.Store(nil)
		if r := recover(); r != nil {
			*slot = "panic"
			note = fmt.Sprint(r)
		}
	}()
	f()
	return
}

const hangAfter = 25 * time.Second
const heapLimit = 1 << 30

func watchdog(onHang func(why string)) {
	for {
		time.Sleep(100 * time.Millisecond)
		g := current.Load()
		if g == nil {
			continue
		}
		if time.Since(g.start) > hangAfter {
			*g.slot = "hang"
			onHang("no return within " + hangAfter.String())
		}
		if time.Since(g.start) > 300*time.Millisecond {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > heapLimit && current.Load() == g {
				*g.slot = "hang"
				onHang("memory grows without bound")
			}
		}
	}
}

func doGen(g bnf.Grammar, obs *GramObs) (*map[int]map[byte][]parser.ParserOp, *map[int]string) {
	var table *map[int]map[byte][]parser.ParserOp
	var names *map[int]string
	var err error
	obs.Names = []Name{}
	obs.Rows = []int{}
	note := guard(&obs.Gen, func() {
		table, names, err = tablegen.FromGrammar(g)
		if err != nil {
			obs.Gen = "err"
		} else {
			obs.Gen = "ok"
		}
	})
	obs.Note = note
	if obs.Gen == "err" {
		obs.Note = err.Error()
		obs.Clean = table == nil && names == nil
		return nil, nil
	}
	if obs.Gen != "ok" {
		return nil, nil
	}
	if table == nil || names == nil {
		obs.Gen = "nil"
		return nil, nil
	}
	obs.Names = namesList(*names)
	for k := range *table {
		obs.Rows = append(obs.Rows, k)
	}
	sort.Ints(obs.Rows)
	return table, names
}

var errFault = errors.New("scripted read fault")
var errWrappedEOF = fmt.Errorf("lost connection: %w", io.EOF)

var faults = map[string]error{
	"":         errFault,
	"ueof":     io.ErrUnexpectedEOF,
	"weof":     errWrappedEOF,
	"closed":   io.ErrClosedPipe,
	"noprog":   io.ErrNoProgress,
	"shortbuf": io.ErrShortBuffer,
	"timeout":  os.ErrDeadlineExceeded,
	"notexist": os.ErrNotExist,
	"eintr":    syscall.EINTR,
	"canceled": context.Canceled,
}

// scripted delivers src according to chunks; what does not fit is skipped.
type scripted struct {
	src    []byte
	off    int
	chunks []Chunk
	i      int
	err    error
	log    []Chunk
	done   bool
}

func (s *scripted) Read(p []byte) (int, error) {
	c := Chunk{N: len(s.src), Err: ""}
	if s.i < len(s.chunks) {
		c = s.chunks[s.i]
	} else if s.off >= len(s.src) {
		c = Chunk{0, "eof"}
	}
	n := c.N
	if n > len(s.src)-s.off {
		n = len(s.src) - s.off
	}
	if n > len(p) {
		// the rest of this chunk comes with the next read
		n = len(p)
		copy(p, s.src[s.off:s.off+n])
		s.off += n
		if s.i < len(s.chunks) {
			s.chunks[s.i].N -= n
		}
		s.log = append(s.log, Chunk{n, ""})
		return n, nil
	}
	s.i++
	copy(p, s.src[s.off:s.off+n])
	s.off += n
	s.log = append(s.log, Chunk{n, c.Err})
	switch c.Err {
	case "eof":
		s.done = true
		return n, io.EOF
	case "fault":
		s.done = true
		return n, s.err
	}
	return n, nil
}

type badSource struct{}
type namedBytes []byte

func (p *Parse) source() (any, *scripted, func() []byte, *bytes.Buffer) {
	src := toBytes(p.Src)
	switch p.Form {
	case "string", "":
		return string(src), nil, nil, nil
	case "bytes":
		return src, nil, func() []byte { return src }, nil
	case "nilbytes":
		return []byte(nil), nil, nil, nil
	case "buffer":
		b := bytes.NewBuffer(src)
		return b, nil, func() []byte { return src }, b
	case "usedbuffer":
		// a buffer from which something was read before
		b := bytes.NewBuffer(append([]byte("##"), src...))
		b.Next(2)
		return b, nil, nil, b
	case "reader":
		sr := &scripted{src: src, chunks: append([]Chunk{}, p.Chunks...), err: faults[p.Fault]}
		return sr.dressed(p.Dress, len(src)), sr, nil, nil
	case "bytesreader":
		return bytes.NewReader(src), nil, nil, nil
	case "stringsreader":
		return strings.NewReader(string(src)), nil, nil, nil
	case "bufio":
		return bufio.NewReaderSize(bytes.NewReader(src), 16), nil, nil, nil
	case "limited":
		return io.LimitReader(bytes.NewReader(append(append([]byte{}, src...), "more"...)), int64(len(src))), nil, nil, nil
	case "embedded":
		return struct{ *bytes.Buffer }{bytes.NewBuffer(src)}, nil, nil, nil
	case "pipe":
		r, w := io.Pipe()
		go func() {
			for i := 0; i < len(src); i += 7 {
				if _, err := w.Write(src[i:min(i+7, len(src))]); err != nil {
					return
				}
			}
			w.Close()
		}()
		return r, nil, nil, nil
	case "multi":
		m := len(src) / 2
		return io.MultiReader(bytes.NewReader(src[:m]), bytes.NewReader(nil), strings.NewReader(string(src[m:]))), nil, nil, nil
	case "buffervalue":
		return *bytes.NewBuffer(src), nil, nil, nil
	case "named":
		return namedBytes(src), nil, nil, nil
	case "bool":
		return true, nil, nil, nil
	case "error":
		return errFault, nil, nil, nil
	case "func":
		return func() []byte { return src }, nil, nil, nil
	case "nil":
		return nil, nil, nil, nil
	case "nilbuffer":
		return (*bytes.Buffer)(nil), nil, nil, nil
	case "int":
		return 42, nil, nil, nil
	case "struct":
		return badSource{}, nil, nil, nil
	case "runes":
		return []rune(string(src)), nil, nil, nil
	case "pstring":
		s := string(src)
		return &s, nil, nil, nil
	case "pbytes":
		return &src, nil, nil, nil
	}
	if x, ok := usedReader(p.Form, src); ok {
		return x, nil, nil, nil
	}
	if x, ok := notSource(p.Form, src); ok {
		return x, nil, nil, nil
	}
	panic("unknown form " + p.Form)
}

func doParse(ps parser.LL1Parser, p *Parse, big bool) (cst.Node, *map[int]string) {
	p.Nodes = [][4]int{}
	p.CNodes = []CNode{}
	p.Names = []Name{}
	p.Codes = []int{}
	p.Words = []string{}
	if p.Chunks == nil {
		p.Chunks = []Chunk{}
	}
	p.Kept = true
	src, sr, orig, buf := p.source()
	var tree cst.Node
	var names *map[int]string
	var err error
	note := guard(&p.Res, func() {
		tree, names, err = ps.Parse(src)
		if err != nil {
			p.Res = "err"
		} else {
			p.Res = "ok"
		}
	})
	p.Note = note
	if orig != nil {
		p.Kept = bytes.Equal(orig(), toBytes(p.Src))
	}
	if buf != nil {
		p.Left = buf.Len()
	}
	if sr != nil {
		p.Chunks = sr.log
		if p.Chunks == nil {
			p.Chunks = []Chunk{}
		}
	}
	switch p.Res {
	case "err":
		p.Codes = errCodes(err.Error())
		p.Words = errWords(err.Error())
		p.Clean = tree == nil && names == nil
		if sr != nil {
			p.Same = errors.Is(err, sr.err)
		}
		p.Note = err.Error()
	case "ok":
		if tree == nil || names == nil {
			p.Res = "nil"
			return nil, nil
		}
		// reading the tree and names is part of using the result
		note := guard(&p.Res, func() {
			n := flatten(tree)
			if big {
				p.CNodes = withChildren(n)
			} else {
				p.Nodes = n
			}
			p.Names = namesList(*names)
			p.Res = "ok"
		})
		if note != "" {
			p.Note = note
		}
	}
	return tree, names
}

func runGram(c *Case) {
	table, names := doGen(toGrammar(c.G), &c.Obs)
	if table == nil {
		for i := range c.Parses {
			c.Parses[i].Res = "none"
			c.Parses[i].blank()
		}
		return
	}
	ps := parser.NewLL1Parser(*table, *names)
	for i := range c.Parses {
		doParse(ps, &c.Parses[i], c.Tag == "big")
	}
}

func (p *Parse) blank() {
	if p.Chunks == nil {
		p.Chunks = []Chunk{}
	}
	if p.Src == nil {
		p.Src = []int{}
	}
	p.Nodes = [][4]int{}
	p.CNodes = []CNode{}
	p.Names = []Name{}
	p.Codes = []int{}
	p.Words = []string{}
}

func runTable(c *Case) {
	names := map[int]string{}
	for _, n := range c.Names {
		names[n.K] = n.V
	}
	if c.NoNm {
		names = nil
	}
	c.Obs = GramObs{Gen: "ok", Names: []Name{}, Rows: []int{}}
	ps := parser.NewLL1Parser(toTable(c.Table), names)
	for i := range c.Parses {
		doParse(ps, &c.Parses[i], c.Tag == "big")
	}
}

func runPair(c *Case) {
	p2 := make([]Parse, len(c.Parses2))
	copy(p2, c.Parses2)
	runGram(c)
	d := &Case{G: c.G2, Parses: p2}
	c.Parses2 = p2
	table, names := doGen(toGrammar(d.G), &c.Obs2)
	if table == nil {
		for i := range p2 {
			p2[i].Res = "none"
			p2[i].blank()
		}
		return
	}
	ps := parser.NewLL1Parser(*table, *names)
	for i := range p2 {
		doParse(ps, &p2[i], false)
	}
}

func runCase(c *Case) {
	c.blank()
	switch c.Kind {
	case "gram":
		runGram(c)
	case "table":
		runTable(c)
	case "pair":
		runPair(c)
	default:
		if f, ok := runners[c.Kind]; ok {
			f(c)
		} else {
			panic("unknown kind " + c.Kind)
		}
	}
}

var runners = map[string]func(*Case){}

func (c *Case) blank() {
	if c.G == nil {
		c.G = Gram{}
	}
	if c.Table == nil {
		c.Table = []Row{}
	}
	if c.Swap == nil {
		c.Swap = []int{}
	}
	if c.Perm == nil {
		c.Perm = []int{}
	}
	if c.TN == nil {
		c.TN = []CNode{}
	}
	if c.Script == nil {
		c.Script = []Visit{}
	}
	if c.Parses2 == nil {
		c.Parses2 = []Parse{}
	}
	if c.G2 == nil {
		c.G2 = Gram{}
	}
	if c.Obs.Names == nil {
		c.Obs.Names = []Name{}
	}
	if c.Obs.Rows == nil {
		c.Obs.Rows = []int{}
	}
	if c.Obs2.Names == nil {
		c.Obs2.Names = []Name{}
	}
	if c.Obs2.Rows == nil {
		c.Obs2.Rows = []int{}
	}
	if c.Names == nil {
		c.Names = []Name{}
	}
	if c.Parses == nil {
		c.Parses = []Parse{}
	}
	for _, ps := range [][]Parse{c.Parses, c.Parses2} {
		for i := range ps {
			if ps[i].Nodes == nil {
				ps[i].blank()
			}
		}
	}
	if c.Text == nil {
		c.Text = []int{}
	}
	if c.Rules == nil {
		c.Rules = []TRule{}
	}
	if c.Printed == nil {
		c.Printed = []int{}
	}
	if c.Given == nil {
		c.Given = []TRule{}
	}
	if c.Again == nil {
		c.Again = []int{}
	}
	if c.Visits == nil {
		c.Visits = []Visit{}
	}
	if c.SetOps == nil {
		c.SetOps = []SetOp{}
	}
	if c.Hist == nil {
		c.Hist = []HistOp{}
	}
	if c.Out == nil {
		c.Out = [][]int{}
	}
}

// runAll executes the cases of in from the skip-th on and appends one line
// per case to out.
func runAll(in, out string, skip, only int, crashTo string) error {
	f, err := os.Open(in)
	if err != nil {
		return err
	}
	defer f.Close()
	o, err := os.OpenFile(out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		return err
	}
	defer o.Close()
	var cur atomic.Pointer[Case]
	write := func(c *Case) {
		b, err := marshal(c)
		if err != nil {
			fmt.Fprintln(os.Stderr, "DRIVER", err)
			os.Exit(4)
		}
		o.Write(append(b, '\n'))
	}
	go watchdog(func(why string) {
		c := cur.Load()
		c.Note = why
		for i := range c.Parses {
			if c.Parses[i].Nodes == nil {
				c.Parses[i].blank()
			}
		}
		for i := range c.Parses2 {
			if c.Parses2[i].Nodes == nil {
				c.Parses2[i].blank()
			}
		}
		write(c)
		os.Exit(3)
	})
	sc := bufio.NewReaderSize(f, 1<<20)
	for i := 0; ; i++ {
		line, err := sc.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			if err == io.EOF {
				break
			}
			return err
		}
		if i < skip || (only >= 0 && i != only) {
			continue
		}
		c := &Case{}
		if err := json.Unmarshal(line, c); err != nil {
			return fmt.Errorf("case %d: %w", i, err)
		}
		cur.Store(c)
		if crashTo != "" {
			crashLog = func() {
				c.blank()
				for i := range c.Parses {
					if c.Parses[i].Nodes == nil {
						c.Parses[i].blank()
					}
				}
				for i := range c.Parses2 {
					if c.Parses2[i].Nodes == nil {
						c.Parses2[i].blank()
					}
				}
				b, _ := marshal(c)
				os.WriteFile(crashTo, append(b, '\n'), 0o644)
			}
		}
		runCase(c)
		write(c)
	}
	return nil
}
