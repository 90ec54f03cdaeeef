package main

import (
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
)

// runSet drives four byte sets through a history of operations and records
// what every observer says.
func runSet(c *Case) {
	var r [5]byteset.ByteSet
	for i := range r {
		r[i] = byteset.New()
	}
	for i := range c.SetOps {
		o := &c.SetOps[i]
		o.List = []int{}
		o.Text = []int{}
		if o.Vs == nil {
			o.Vs = []int{}
		}
		note := guard(&c.Res, func() {
			switch o.Op {
			case "new":
				vs := toBytes(o.Vs)
				r[o.D] = byteset.New(vs...)
				for k := range vs {
					vs[k] = 7 // the caller's slice is the caller's
				}
			case "add":
				r[o.A].Add(byte(o.V))
			case "remove":
				r[o.A].Remove(byte(o.V))
			case "union":
				r[o.D] = r[o.A].Union(r[o.B])
			case "copy":
				r[o.D] = r[o.A]
			case "contains":
				o.Bool = r[o.A].Contains(byte(o.V))
			case "members":
				for b := 0; b < 256; b++ {
					if r[o.A].Contains(byte(b)) {
						o.List = append(o.List, b)
					}
				}
			case "len":
				o.Int = r[o.A].Len()
			case "bytes":
				l := r[o.A].Bytes()
				o.List = toInts(l)
				for k := range l {
					l[k] = 0
				}
			case "string":
				o.Text = toInts([]byte(r[o.A].String()))
			case "equal":
				o.Bool = r[o.A].Equal(r[o.B])
			case "subset":
				o.Bool = r[o.A].IsSubSet(r[o.B])
			case "superset":
				o.Bool = r[o.A].IsSuperSet(r[o.B])
			}
			c.Res = "ok"
		})
		if c.Res != "ok" {
			o.Panic = true
			c.Note = note
			c.SetOps = c.SetOps[:i+1]
			return
		}
	}
}

func init() { runners["set"] = runSet }
