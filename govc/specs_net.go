package main

// Contracts of the session messages and of the network packages.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// spareOf is the empty slice behind the end of s.
func (x *X) spareOf(s SliceVal) SliceVal {
	return SliceVal{obj: s.obj, off: x.tb.Add(s.off, s.n), n: x.c64(0), cap: x.tb.Sub(s.cap, s.n), isnil: s.isnil, elem: s.elem}
}

func (x *X) authStart(mech []Piece, data Value) []Piece {
	n := x.contentLen(data)
	return x.frame(msgAuthStart, x.fld(1, mech), x.opt(x.tb.Ne(n, x.c64(0)), x.fld(2, x.content(data))))
}

func (x *X) authCont(data []Piece) []Piece { return x.frame(msgAuthCont, x.fld(1, data)) }

func regNet(e *Engine) {
	e.add(&Contract{Key: "xproto.AuthenticateStart", Props: []string{"C24"}, Also: []string{"C18"}, Spec: func(c *Ctx) []Case {
		x := c.x
		return []Case{{Res: []RSpec{RApp{x.spareOf(c.S(0)), x.authStart(x.content(c.args[1]), c.args[2])}}}}
	}})
	e.add(&Contract{Key: "xproto.AuthenticateContinue", Props: []string{"C24"}, Also: []string{"C18"}, Spec: func(c *Ctx) []Case {
		x := c.x
		return []Case{{Res: []RSpec{RApp{x.spareOf(c.S(0)), x.authCont(x.content(c.args[1]))}}}}
	}})
	e.add(&Contract{Key: "xproto.CapabilitySet", Props: []string{"C24"}, Spec: func(c *Ctx) []Case {
		x := c.x
		b := x.frame(msgCapSet, x.fld(1, x.fld(1, x.fld(1, x.content(c.args[0])), x.wrap('a', 2, x.scBool(c.T(1))))))
		return []Case{{Res: []RSpec{RBuf{b}, RNoErr{}}}}
	}})
}

func normName(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

func regCollation(e *Engine) {
	seen := map[string]uint64{}
	var ids []uint64
	for id, n := range mysqlCollations {
		if o, dup := seen[n]; dup {
			panic(fmt.Sprintf("collations %d and %d have the same name", o, id))
		}
		seen[n] = id
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	e.add(&Contract{Key: "(collation.Collation).String", Props: []string{"C23"}, Spec: func(c *Ctx) []Case {
		x := c.x
		var cs []Case
		for _, id := range ids {
			cs = append(cs, Case{Name: fmt.Sprintf("collation %d", id), G: x.tb.Eq(c.T(0), x.c64(int64(id))), Res: []RSpec{RStr{x.lit(mysqlCollations[id])}}})
		}
		return append(cs, Case{Name: "unknown id", Res: []RSpec{RStr{cat(x.lit("Collation("), x.dec(c.T(0)), x.lit(")"))}}})
	}})
	e.add(&Contract{Key: "(collation.Collation).IsBinary", Props: []string{"C23"}, Spec: func(c *Ctx) []Case {
		x := c.x
		return []Case{{Res: []RSpec{RVal{x.tb.Eq(c.T(0), x.c64(63))}}, Post: func(x *X, res []Value) {
			// the exported constants carry the ids of the collations they are named after
			p := x.eng.pkgs[modPrefix+"/collation"]
			for _, n := range p.Pkg.Scope().Names() {
				k, ok := p.Pkg.Scope().Lookup(n).(*types.Const)
				if !ok || typeName(k.Type()) != "collation.Collation" || !k.Exported() {
					continue
				}
				id, _ := constant.Uint64Val(constant.ToInt(k.Val()))
				x.oblige(fmt.Sprintf("constant %s = %d has the id of the collation it is named after (%q)", n, id, mysqlCollations[id]),
					x.tb.Bool(normName(mysqlCollations[id]) == normName(n)))
			}
		}}}
	}})
}
