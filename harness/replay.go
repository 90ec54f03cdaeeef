package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"sync/atomic"

	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// What the specification says about one grammar: whether there is a table,
// and all words up to a length that the parser accepts.
type told struct {
	G     Gram    `json:"g"`
	OK    bool    `json:"ok"`
	Len   int     `json:"len"`
	Words [][]int `json:"words"`
}

// replay reads the lines TLC printed, gives the grammars to the library with
// bytes replaced by chosen ones, and writes a case for every disagreement.
// The case goes through the trace specification, which has the last word.
func replay(in, out string, seed int64, shard, shards int, crashTo string) error {
	f, err := os.Open(in)
	if err != nil {
		return err
	}
	defer f.Close()
	o, err := os.Create(out)
	if err != nil {
		return err
	}
	defer o.Close()
	var cur atomic.Pointer[Case]
	stat := struct {
		Grammars int `json:"grammars"`
		Tables   int `json:"tables"`
		Parses   int `json:"parses"`
		Accepted int `json:"accepted"`
		Differ   int `json:"differ"`
	}{}
	write := func(c *Case) {
		stat.Differ++
		c.blank()
		for i := range c.Parses {
			c.Parses[i].blank()
		}
		b, _ := marshal(c)
		o.Write(append(b, '\n'))
	}
	go watchdog(func(why string) {
		write(cur.Load())
		os.Exit(3)
	})
	sc := bufio.NewReaderSize(f, 1<<20)
	idx := 0
	for {
		line, err := sc.ReadString('\n')
		if err == io.EOF && line == "" {
			break
		}
		if err != nil && err != io.EOF {
			return err
		}
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, `"REPLAY `) {
			continue
		}
		idx++
		if idx%shards != shard {
			continue
		}
		var s string
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			return fmt.Errorf("line %d: %w", idx, err)
		}
		var t told
		if err := json.Unmarshal([]byte(strings.TrimPrefix(s, "REPLAY ")), &t); err != nil {
			return fmt.Errorf("line %d: %w", idx, err)
		}
		stat.Grammars++
		r := rand.New(rand.NewSource(seed*1000003 + int64(idx)))
		m := map[int]int{}
		pool := append([]int{}, boundary...)
		for len(pool) < 30 {
			b := 1 + r.Intn(255)
			dup := false
			for _, x := range pool {
				dup = dup || x == b
			}
			if !dup {
				pool = append(pool, b)
			}
		}
		perm := r.Perm(len(pool))
		sub := func(v []int) []int {
			res := make([]int, len(v))
			for i, b := range v {
				if _, ok := m[b]; !ok {
					m[b] = pool[perm[len(m)]]
				}
				res[i] = m[b]
			}
			return res
		}
		// both bytes get an image, used or not
		sub([]int{97, 98})
		for i := range t.G {
			for a := range t.G[i].Alts {
				for k, y := range t.G[i].Alts[a] {
					t.G[i].Alts[a][k].V = sub(y.V)
				}
			}
		}
		c := &Case{ID: idx, Kind: "gram", Tag: "replay", Check: []string{}, G: t.G}
		cur.Store(c)
		if crashTo != "" {
			d := *c
			d.blank()
			b, _ := marshal(&d)
			os.WriteFile(crashTo, append(b, '\n'), 0o644)
		}
		obs := GramObs{}
		table, names := doGen(toGrammar(t.G), &obs)
		if (obs.Gen == "ok") != t.OK || (obs.Gen != "ok" && obs.Gen != "err") {
			write(c)
		}
		if table == nil {
			continue
		}
		want := map[string]bool{}
		for _, w := range t.Words {
			want[string(toBytes(sub(w)))] = true
		}
		stat.Tables++
		ps := parser.NewLL1Parser(*table, *names)
		if !t.OK {
			continue
		}
		alphabet := []byte{byte(m[97]), byte(m[98]), 0}
		bad := 0
		var try func(w []byte)
		try = func(w []byte) {
			stat.Parses++
			var slot string
			var err error
			p := Parse{Src: toInts(w), Form: "string"}
			c.Parses = []Parse{p}
			src := string(w)
			guard(&slot, func() {
				_, _, err = ps.Parse(src)
				slot = "ok"
				if err != nil {
					slot = "err"
				}
			})
			if slot == "ok" {
				stat.Accepted++
			}
			if (slot == "ok") != want[src] || (slot != "ok" && slot != "err") {
				bad++
				if bad <= 3 {
					write(c)
				}
			}
			if len(w) < t.Len {
				for _, b := range alphabet {
					try(append(w, b))
				}
			}
		}
		try([]byte{})
		c.Parses = nil
	}
	b, _ := json.Marshal(stat)
	fmt.Println(string(b))
	return nil
}
