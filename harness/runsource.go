package main

import (
	"encoding/binary"
	"hash/fnv"

	"github.com/TooManySugar/ll1parser/pkg/parser"
)

func digestInts(h uint64, xs ...int) uint64 {
	f := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], h)
	f.Write(b[:])
	for _, x := range xs {
		binary.LittleEndian.PutUint64(b[:], uint64(x))
		f.Write(b[:])
	}
	return f.Sum64()
}

func digestString(h uint64, s string) uint64 {
	f := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], h)
	f.Write(b[:])
	f.Write([]byte(s))
	return f.Sum64()
}

func small(h uint64) int { return int((h ^ h>>31) & 0x7fffffff) }

// summary replaces tree and names of a parse by a digest.
func (p *Parse) summary() {
	h := digestString(1, p.Res)
	for _, n := range p.Nodes {
		h = digestInts(h, n[:]...)
	}
	for _, n := range p.Names {
		h = digestString(digestInts(h, n.K), n.V)
	}
	h = digestInts(h, p.Codes...)
	p.Digest = small(h)
	p.Nodes = [][4]int{}
	p.Names = []Name{}
	p.Size = len(p.Src)
	p.Src = []int{}
	p.Words = []string{}
}

// runSource parses the same bytes, supplied in different ways.
func runSource(c *Case) {
	table, names := doGen(toGrammar(c.G), &c.Obs)
	text := c.Text
	for i := range c.Parses {
		if table == nil {
			c.Parses[i].Res = "none"
			c.Parses[i].blank()
		}
	}
	if table != nil {
		ps := parser.NewLL1Parser(*table, *names)
		for i := range c.Parses {
			c.Parses[i].Src = text
			doParse(ps, &c.Parses[i], false)
			c.Parses[i].summary()
		}
	}
	if len(c.Text) > 1000 {
		c.Text = []int{}
	}
}

func init() { runners["source"] = runSource }
