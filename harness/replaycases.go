package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync/atomic"
)

// Want is what the specification says comes out of a case.
type Want struct {
	Res    string    `json:"res"` // "ok" "err"
	Rules  []TRule   `json:"rules"`
	Nodes  [][4]int  `json:"nodes"`
	Err    WantErr   `json:"err"`
	Lines  [][]int   `json:"lines"`
	Visits []Visit   `json:"visits"`
	Script []WantSrc `json:"script"`

	Calls []WantCall `json:"calls"`
}

// WantCall is what a call of a history gives.
type WantCall struct {
	Res    string   `json:"res"`
	Nodes  [][4]int `json:"nodes"`
	Err    WantErr  `json:"err"`
	Names  [][]int  `json:"names"`
	Visits [][4]int `json:"visits"`
	Rules  []TRule  `json:"rules"`
}

type WantErr struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Want int    `json:"want"`
	Got  int    `json:"got"`
}

type WantSrc struct {
	Kind string `json:"kind"` // "all" like the first parse, "fault", "none", "open"
}

// A Told is one line of TLC: a case and what comes out of it.
type Told struct {
	Case Case `json:"case"`
	Want Want `json:"want"`
}

func hasWord(ws []string, w string) bool {
	for _, x := range ws {
		if x == w {
			return true
		}
	}
	return false
}

// errorFits is ErrorFits of TraceParse.
func errorFits(p *Parse, e WantErr) bool {
	switch e.Kind {
	case "no-cell":
		return reflect.DeepEqual(p.Codes, []int{e.Got}) && hasWord(p.Words, e.Name)
	case "wrong-byte":
		return reflect.DeepEqual(p.Codes, []int{e.Want, e.Got})
	case "trailing":
		return reflect.DeepEqual(p.Codes, []int{e.Got}) && hasWord(p.Words, "end")
	case "no-row", "no-builtin":
		return hasWord(p.Words, e.Name)
	}
	return true
}

func sameStart(a, b []int) bool {
	return len(a) >= len(b) && reflect.DeepEqual(a[:len(b)], b)
}

func sameRules(a, b []TRule) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

func (v *WantCall) agrees(h *SysOp) bool {
	if h.Res != v.Res || (h.Res == "err" && !h.Clean) {
		return false
	}
	if h.Res == "err" && h.Op == "parse" {
		p, e := &Parse{Codes: h.Codes, Words: h.Words}, v.Err
		if strings.HasPrefix(e.Name, "#") {
			// a name of the caller's: TLC looks at it when the rest differs
			e.Name = ""
			p.Words = append(p.Words, "")
		}
		return errorFits(p, e)
	}
	if h.Res != "ok" {
		return true
	}
	switch h.Op {
	case "gen":
		if len(h.BNames) != len(v.Names) {
			return false
		}
		for j, n := range h.BNames {
			if n.K != j || !reflect.DeepEqual(n.V, v.Names[j]) {
				return false
			}
		}
	case "parse":
		return reflect.DeepEqual(h.Nodes, v.Nodes)
	case "toast":
		return sameRules(h.Rules, v.Rules)
	case "walk":
		return reflect.DeepEqual(h.Visits, v.Visits)
	}
	return true
}

// agrees compares what was observed with what was told, as far as the
// aspects go. It need not be exact: what does not agree is judged by TLC.
func (t *Told) agrees(aspect func(string) bool) bool {
	c, w := &t.Case, &t.Want
	switch c.Kind {
	case "text", "toast":
		if c.Res != w.Res {
			return false
		}
		if c.Res == "ok" {
			return sameRules(c.Rules, w.Rules)
		}
		return c.Clean
	case "print":
		return c.Res == "ok" && sameRules(c.Rules, c.Given) && reflect.DeepEqual(c.Again, c.Printed)
	case "overlap":
		// the calls, without the pauses, in the order in which they were told
		if c.Res != "ok" {
			return false
		}
		last := []int{}
		who := map[int]*SysOp{}
		k := 0
		for i := range c.Sys {
			h := &c.Sys[i]
			if h.Printed != 0 || !sameStart(h.Watch, last) {
				return false
			}
			last = h.Watch
			if h.Op == "pause" {
				continue
			}
			if h.Who > 0 {
				who[h.Who] = h
			} else if !w.Calls[k].agrees(h) {
				return false
			} else {
				k++
			}
		}
		for i := 1; k < len(w.Calls); i++ {
			if who[i] == nil || !w.Calls[k].agrees(who[i]) {
				return false
			}
			k++
		}
		return true
	case "system":
		last := []int{}
		for i := range c.Sys {
			h := &c.Sys[i]
			if h.Printed != 0 || !w.Calls[i].agrees(h) {
				return false
			}
			for j := range last {
				if last[j] != h.Watch[j] && (len(h.Touch) == 0 || h.Touch[0] != j+1) {
					return false
				}
			}
			last = h.Watch
		}
		return true
	case "walk":
		return c.Res == "ok" && reflect.DeepEqual(c.Visits, w.Visits)
	case "pair":
		return c.samePair()
	case "example":
		if c.Res != "ran" || (c.Exit == 0) != (w.Res == "ok") {
			return false
		}
		if w.Res != "ok" {
			return c.Size > 0 && !strings.Contains(outText(c.Out), "successfully")
		}
		return c.Size == 0 && len(c.Out) >= len(w.Lines)+2 &&
			outText(c.Out[len(c.Out)-len(w.Lines):]) == outText(w.Lines) &&
			strings.Contains(outText(c.Out[:len(c.Out)-len(w.Lines)]), "successfully")
	case "source":
		for i := range c.Parses {
			p, q := &c.Parses[i], &c.Parses[0]
			switch w.Script[i].Kind {
			case "all":
				if p.Res != q.Res || p.Digest != q.Digest {
					return false
				}
			case "fault":
				if p.Res != "err" || !p.Same || !p.Clean {
					return false
				}
			}
		}
		return true
	case "gram", "table":
		if c.Kind == "gram" {
			if c.Obs.Gen != "ok" {
				return false
			}
			if aspect("numbering") {
				if len(c.Obs.Names) != len(c.G) || len(c.Obs.Rows) != len(c.G) {
					return false
				}
				for i, n := range c.Obs.Names {
					if n.K != i || n.V != c.G[i].Head {
						return false
					}
				}
				for i, r := range c.Obs.Rows {
					if r != i {
						return false
					}
				}
			}
		}
		p := &c.Parses[0]
		if p.Res != w.Res {
			return false
		}
		if aspect("tree") && p.Res == "ok" && !reflect.DeepEqual(p.Nodes, w.Nodes) {
			return false
		}
		if aspect("error") && p.Res == "err" && (!p.Clean || !errorFits(p, w.Err)) {
			return false
		}
		if aspect("numbering") && p.Res == "ok" {
			have := map[int]string{}
			for _, n := range p.Names {
				have[n.K] = n.V
			}
			want := c.Names
			if c.Kind == "gram" {
				want = nil
				for i, r := range c.G {
					want = append(want, Name{i, r.Head})
				}
			}
			if len(have) != len(want)+2 || have[-1] == "" || have[-2] == "" {
				return false
			}
			for _, n := range want {
				if have[n.K] != n.V {
					return false
				}
			}
		}
		return true
	}
	return false
}

func outText(lines [][]int) string {
	sb := strings.Builder{}
	for _, l := range lines {
		sb.Write(toBytes(l))
		sb.WriteByte('\n')
	}
	return sb.String()
}

// substitute replaces the two letters of an enumerated grammar or table by
// other bytes, everywhere.
func (t *Told) substitute(r *rand.Rand) {
	x := boundary[r.Intn(len(boundary))]
	y := x
	eol := func(b int) bool { return len(t.Case.Table) > 0 && (b == 10 || b == 13) }
	for y == x || x == 0 || y == 0 || eol(x) || eol(y) {
		x, y = 1+r.Intn(255), boundary[r.Intn(len(boundary))]
	}
	one := func(b *int) {
		switch *b {
		case 97:
			*b = x
		case 98:
			*b = y
		}
	}
	all := func(v []int) {
		for i := range v {
			one(&v[i])
		}
	}
	c := &t.Case
	for i := range c.G {
		for a := range c.G[i].Alts {
			for k := range c.G[i].Alts[a] {
				all(c.G[i].Alts[a][k].V)
			}
		}
	}
	for i := range c.Table {
		for j := range c.Table[i].Cells {
			one(&c.Table[i].Cells[j].B)
			for k := range c.Table[i].Cells[j].Ops {
				all(c.Table[i].Cells[j].Ops[k].V)
			}
		}
	}
	for i := range c.Parses {
		all(c.Parses[i].Src)
	}
	one(&t.Want.Err.Want)
	one(&t.Want.Err.Got)
}

// dressPair gives an enumerated pair other bytes and other names.
func (c *Case) dressPair(r *rand.Rand) {
	bs := map[int]int{}
	used := map[int]bool{0: true}
	for _, b := range []int{97, 98, 99} {
		x := boundary[r.Intn(len(boundary))]
		for used[x] {
			x = 1 + r.Intn(255)
		}
		bs[b], used[x] = x, true
	}
	all := func(v []int) {
		for i := range v {
			if x, ok := bs[v[i]]; ok {
				v[i] = x
			}
		}
	}
	names := map[string]string{"A": "A", "B": "B", "C": "C"}
	look := lookalikes(r, r.Intn(allFamilies), 6)
	if r.Intn(3) == 0 {
		names["A"], names["B"], names["C"] = look[3], look[4], look[5]
	}
	switch r.Intn(3) {
	case 0:
		names["X"], names["Y"], names["Z"] = look[0], look[1], look[2]
	case 1: // the names change places
		names["X"], names["Y"], names["Z"] = names["B"], names["A"], names["C"]
	case 2:
		names["X"], names["Y"], names["Z"] = names["A"], names["B"], names["C"]
	}
	for _, g := range []Gram{c.G, c.G2} {
		for i := range g {
			g[i].Head = names[g[i].Head]
			for a := range g[i].Alts {
				for k := range g[i].Alts[a] {
					y := &g[i].Alts[a][k]
					all(y.V)
					if y.K == "n" {
						y.N = names[y.N]
					}
				}
			}
		}
	}
	all(c.Swap)
	for _, ps := range [][]Parse{c.Parses, c.Parses2} {
		for i := range ps {
			all(ps[i].Src)
		}
	}
}

// samePair is what TracePair checks.
func (c *Case) samePair() bool {
	if c.Obs.Gen != c.Obs2.Gen || len(c.Parses) != len(c.Parses2) {
		return false
	}
	for i := range c.Parses {
		p, q := &c.Parses[i], &c.Parses2[i]
		if p.Res != q.Res || len(p.Nodes) != len(q.Nodes) {
			return false
		}
		for j := range p.Nodes {
			x := p.Nodes[j]
			if x[0] >= 0 {
				if x[0] >= len(c.Perm) {
					return false
				}
				x[0] = c.Perm[x[0]]
			}
			if x != q.Nodes[j] {
				return false
			}
		}
	}
	return true
}

// replayCases runs the cases TLC printed, and writes those that did not come
// out as told.
func replayCases(in, out string, seed int64, shard, shards int, crashTo, aspects string) error {
	f, err := os.Open(in)
	if err != nil {
		return err
	}
	defer f.Close()
	o, err := os.Create(out)
	if err != nil {
		return err
	}
	defer o.Close()
	oin, err := os.Create(out + ".in")
	if err != nil {
		return err
	}
	defer oin.Close()
	var given []byte
	aspect := func(x string) bool {
		return aspects == "" || strings.Contains(","+aspects+",", ","+x+",")
	}
	stat := map[string]int{}
	var cur atomic.Pointer[Case]
	write := func(c *Case) {
		stat["differ"]++
		c.blank()
		for i := range c.Parses {
			c.Parses[i].blank()
		}
		b, _ := marshal(c)
		oin.Write(append(given, '\n'))
		o.Write(append(b, '\n'))
	}
	go watchdog(func(string) {
		write(cur.Load())
		os.Exit(3)
	})
	sc := bufio.NewReaderSize(f, 1<<20)
	for idx := 0; ; {
		line, err := sc.ReadString('\n')
		if err == io.EOF && line == "" {
			break
		}
		if err != nil && err != io.EOF {
			return err
		}
		if !strings.HasPrefix(line, `"REPLAY `) {
			continue
		}
		idx++
		if idx%shards != shard {
			continue
		}
		var s string
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			return fmt.Errorf("line %d: %w", idx, err)
		}
		t := &Told{}
		if err := json.Unmarshal([]byte(strings.TrimPrefix(s, "REPLAY ")), t); err != nil {
			return fmt.Errorf("line %d: %w in %s", idx, err, s)
		}
		c := &t.Case
		c.ID = idx
		if c.Kind == "gram" || c.Kind == "table" {
			// the same bytes for all parses of a grammar
			key, _ := json.Marshal([]any{c.G, c.Table})
			t.substitute(rand.New(rand.NewSource(seed*1000003 + int64(digestString(0, string(key))>>2))))
		}
		if c.Kind == "pair" {
			c.dressPair(rand.New(rand.NewSource(seed*1000003 + int64(idx))))
		}
		if c.Kind == "source" {
			c.Parses[len(c.Parses)-1].Dress = dresses[(idx+int(seed))%len(dresses)]
		}
		if c.Kind == "print" {
			c.Given = asText(c.G)
		}
		if c.Check = strings.Split(aspects, ","); aspects == "" {
			c.Check = []string{}
		}
		if given, err = marshal(c); err != nil {
			return err
		}
		cur.Store(c)
		if crashTo != "" {
			crashLog = func() {
				c.blank()
				for i := range c.Parses {
					c.Parses[i].blank()
				}
				b, _ := marshal(c)
				os.WriteFile(crashTo, append(b, '\n'), 0o644)
				os.WriteFile(crashTo+".in", append(given, '\n'), 0o644)
			}
		}
		stat["cases"]++
		runCase(c)
		if t.Want.Res != "" {
			stat[c.Kind+" "+t.Want.Res]++
		}
		if !t.agrees(aspect) {
			write(c)
		}
	}
	b, _ := json.Marshal(stat)
	fmt.Println(string(b))
	return nil
}
