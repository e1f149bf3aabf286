package main

// Contracts for the properties that look at one aspect of building only: exact frames (C10), error
// propagation and sending (C13), locking (C14). They are the contracts of the other properties with the
// parts that do not matter replaced: the bytes of a message by "one complete frame", "more bytes" or
// anything.

import "go/types"

// RTile: base followed by complete messages (exactly one, when One).
type RTile struct {
	Base SliceVal
	Rope []Piece // what is appended at a call site, when it has a name already
	One  bool
}

type tile struct {
	start, n *Term
	p        Piece
}

func (x *X) tiles() []tile {
	t, _ := x.ghostData["tiles"].([]tile)
	return t
}

func (x *X) makeTile(r RTile, who string) Value {
	ps := r.Rope
	if ps == nil {
		n := x.tb.Fresh("frames", SBV(64))
		x.assume(x.tb.Ule(x.c64(5), n))
		x.boundLen(n, 40)
		ps = []Piece{{seq: x.symSeq("frames"), n: n, lab: "complete messages of " + who}}
	}
	x.ghostData["tiles"] = append(x.tiles()[:len(x.tiles()):len(x.tiles())], tile{r.Base.n, ps[0].n, ps[0]})
	return x.appendLike(r.Base, ps, who)
}

// oneFrame is a frame of n bytes with any content.
func (x *X) oneFrame(n *Term) []Piece {
	k := x.tb.Sub(n, x.c64(4))
	return cat(x.le32(k), x.anyBytes(k))
}

func (x *X) checkTile(r RTile, got Value, name string) {
	if x.mute > 0 {
		return
	}
	s, ok := got.(SliceVal)
	if !ok {
		x.oblige(name+" is a byte slice", x.tb.False())
		return
	}
	tb := x.tb
	cur := r.Base.n
	var rope []Piece
	gap := func(end *Term) {
		n := tb.Sub(end, cur)
		x.oblige(name+": the bytes added are whole messages (room for a header)", tb.And(tb.Ule(cur, end), tb.Ule(x.c64(5), n)))
		rope = append(rope, x.oneFrame(n)...)
		cur = end
	}
	if !r.One {
		for _, t := range x.tiles() {
			if x.decide(tb.Eq(t.start, cur)) != 1 {
				gap(t.start)
			}
			rope = append(rope, t.p)
			cur = tb.Add(cur, t.n)
		}
	}
	if x.decide(tb.Eq(cur, s.n)) != 1 {
		gap(s.n)
	} else if r.One {
		x.oblige(name+": one message is added", tb.False())
	}
	x.checkR(RApp{r.Base, rope}, got, name)
}

// mapCases rewrites the results and fields of a contract's cases.
func mapCases(con *Contract, f func(c *Ctx, r RSpec, mem bool) RSpec) {
	old := con.Spec
	con.Spec = func(c *Ctx) []Case {
		cs := old(c)
		for i := range cs {
			res := append([]RSpec(nil), cs[i].Res...)
			for j := range res {
				res[j] = f(c, res[j], false)
			}
			mem := append([]MSpec(nil), cs[i].Mem...)
			for j := range mem {
				mem[j].R = f(c, mem[j].R, true)
			}
			cs[i].Res, cs[i].Mem = res, mem
		}
		return cs
	}
}

var frameFns = []string{"StmtExecute", "Prepare", "Execute", "Deallocate", "Delete", "ExpectOpen", "ExpectClose", "Reset"}
var partFns = []string{"Insert", "Update", "AppendInsertRow", "AppendUpdateSet"}
var builderOps = []string{"StmtExecute", "Prepare", "Execute", "Deallocate", "Insert", "InsertRow", "InsertF", "Update", "UpdateF", "Delete", "Tx", "ExpectFailOnError"}
var callbackOps = map[string]bool{"InsertF": true, "UpdateF": true, "Tx": true, "ExpectFailOnError": true}
var childOps = []string{"(*xtorm.Insert).Row", "(*xtorm.Insert).RowV", "(*xtorm.Update).Set"}

func regMode(e *Engine, prop string) {
	if prop != "C10" && prop != "C13" && prop != "C14" {
		return
	}
	root := func(c *Contract) {
		c.Props = []string{prop}
		c.Also = nil
	}
	for _, n := range frameFns {
		c := e.contracts["xproto."+n]
		root(c)
		c.Props, c.Also = nil, nil
		c.Helper = true
		if prop == "C10" {
			root(c)
			c.Helper = false
		}
		if n == "ExpectOpen" {
			// conditions given as concrete functions need no name here
			v := c.Spec
			c.Spec = func(k *Ctx) []Case {
				if k.call {
					return []Case{{Res: []RSpec{RApp{Base: k.S(0)}}}}
				}
				return v(k)
			}
		}
		mapCases(c, func(c *Ctx, r RSpec, _ bool) RSpec {
			a, ok := r.(RApp)
			if !ok {
				return r
			}
			if prop == "C10" {
				return RTile{Base: a.Base, One: true}
			}
			return RKeep{a.Base, 5}
		})
	}
	for _, n := range partFns {
		// these keep their full contracts: the loops over rows and assignments need them
		c := e.contracts["xproto."+n]
		c.Props, c.Also = nil, nil
		c.Helper = true
	}
	for _, n := range builderOps {
		c := e.contracts["(*xtorm.Builder)."+n]
		root(c)
		if n != "StmtExecute" {
			c.Only = true
		}
		c.Inline = nil
		cbOp := callbackOps[n]
		if n == "InsertRow" {
			c.Spec = func(c *Ctx) []Case {
				x := c.x
				b := c.b()
				return x.opCases(b, 1, func(buf SliceVal) []Case {
					row := x.rowEnc(c.S(3))
					return []Case{
						{Name: "encodable", G: x.okOf(row), Mem: []MSpec{{b.buf, RApp{Base: buf}}, {b.err, RNoErr{}}}, Res: []RSpec{RAny{}}},
						{Name: "not encodable", Mem: []MSpec{{b.buf, RAny{}}, {b.err, RErr{}}}, Res: []RSpec{RAny{}}},
					}
				})
			}
		}
		if prop == "C13" || prop == "C14" {
			v := c.Spec
			c.Spec = func(k *Ctx) []Case {
				cs := v(k)
				for i := range cs {
					if cs[i].Name == "after a failure" {
						cs[i].Mem = append(cs[i].Mem, MSpec{k.b().buf, RAny{}})
					}
				}
				return cs
			}
		}
		mapCases(c, func(c *Ctx, r RSpec, mem bool) RSpec {
			a, ok := r.(RApp)
			if !ok {
				if _, ok := r.(RNoErr); ok && mem && prop == "C13" && !c.call {
					return RAny{}
				}
				return r
			}
			switch prop {
			case "C10":
				return RTile{Base: a.Base}
			case "C13":
				return RAny{}
			}
			return RKeep{a.Base, 0}
		})
		switch prop {
		case "C13":
			notLocked(c)
			if cbOp {
				firstError(c)
			}
		case "C14":
			if cbOp {
				lockedDuring(c)
			}
		}
	}
	for _, k := range childOps {
		c := e.contracts[k]
		root(c)
		mapCases(c, func(c *Ctx, r RSpec, mem bool) RSpec {
			a, ok := r.(RApp)
			if !ok {
				return r
			}
			if prop == "C10" {
				return RKeep{a.Base, 0}
			}
			return RAny{}
		})
		if prop != "C10" {
			v := c.Spec
			c.Spec = func(k *Ctx) []Case {
				cs := v(k)
				for i := range cs {
					if cs[i].Name == "after a failure" {
						cs[i].Mem = append(cs[i].Mem, MSpec{k.b().buf, RAny{}})
					}
				}
				return cs
			}
		}
		if prop == "C14" {
			delete(e.contracts, k)
		}
	}
	if prop == "C10" {
		c := e.contracts["func:func(*xtorm.Builder) error"]
		mapCases(c, func(c *Ctx, r RSpec, _ bool) RSpec {
			if a, ok := r.(RApp); ok {
				return RTile{Base: a.Base, Rope: a.Rope}
			}
			return r
		})
		return
	}
	regSend(e, prop)
}

// notLocked: the property is about builders that are not locked by a running callback.
func notLocked(c *Contract) {
	old := c.Assume
	c.Assume = func(k *Ctx) []*Term {
		out := []*Term{k.x.tb.Not(k.x.disabledOf(k.b()))}
		if old != nil {
			out = append(out, old(k)...)
		}
		return out
	}
}

// firstError: when the work of a callback fails, its first error stays.
func firstError(c *Contract) {
	old := c.Spec
	c.Spec = func(k *Ctx) []Case {
		cs := old(k)
		for i := range cs {
			if cs[i].Name == "callback fails" || cs[i].Name == "callback or criteria fails" {
				b := k.b()
				cs[i].Post = func(x *X, _ []Value) {
					if e, ok := x.ghostData["cberr"].(IfaceVal); ok {
						x.obligeSame("the error is the first one that occurred in the callback", e, x.errOf(b))
					}
				}
			}
		}
		return cs
	}
}

func lockedDuring(c *Contract) {
	c.Begin = func(k *Ctx) {
		x := k.x
		b := k.b()
		x.ghostData["atcb"] = func(child bld) {
			x.ghostData["cblen"] = x.bufOf(child).n
			x.oblige("the enclosing builder is locked while the callback runs", x.disabledOf(b))
			if child.hasDis {
				x.oblige("the builder given to the callback accepts work", x.tb.Not(x.disabledOf(child)))
				x.oblige("the builder given to the callback is not the enclosing one", x.tb.Bool(child.p.obj != b.p.obj))
			}
		}
	}
	old := c.Spec
	c.Spec = func(k *Ctx) []Case {
		cs := old(k)
		b := k.b()
		var f FuncVal
		for _, a := range k.args {
			if g, ok := a.(FuncVal); ok && g.typ.Underlying().(*types.Signature).Results().Len() == 1 {
				f = g
			}
		}
		for i := range cs {
			if cs[i].Name != "callback succeeds" {
				continue
			}
			cs[i].Post = func(x *X, _ []Value) {
				once(x, 1)
				at, ok := x.ghostData["cblen"].(*Term)
				if !ok || x.mute > 0 {
					return
				}
				r := x.cb(f, 0)
				fin := x.bufOf(b)
				end := x.tb.Add(at, r.out[0].n)
				x.oblige("the buffer is long enough for what the callback built", x.tb.Ule(end, fin.n))
				x.checkRope("what the callback built", x.view(x.sliceSeq(fin), at), r.out[0].n, r.out)
			}
		}
		return cs
	}
}

type sendEv struct {
	ctx Value
	buf SliceVal
	seq Seq
	res []Value
}

// regSend: XPipe.Send, XPipe.Reset and New.
func regSend(e *Engine, prop string) {
	e.add(&Contract{Key: "iface:netx.Sender.Send", Trusted: true, Why: "a sender does not modify the builder",
		Spec: func(c *Ctx) []Case {
			return []Case{{Res: []RSpec{RAny{}, RAny{}}, Facts: func(x *X, res []Value) {
				evs, _ := x.ghostData["sends"].([]sendEv)
				b := c.args[2].(SliceVal)
				x.ghostData["sends"] = append(evs[:len(evs):len(evs)], sendEv{c.args[1], b, x.sliceSeq(b), res})
			}}}
		}})
	sends := func(x *X) []sendEv {
		evs, _ := x.ghostData["sends"].([]sendEv)
		return evs
	}
	send := &Contract{Key: "(*xtorm.XPipe).Send", Props: []string{prop}, Only: true, Spec: func(c *Ctx) []Case {
		x := c.x
		b := c.b()
		if x.branch(x.disabledOf(b)) {
			return []Case{{Name: "while a callback builds", Panic: true, Post: func(x *X, _ []Value) {
				x.oblige("nothing is sent", x.tb.Bool(len(sends(x)) == 0))
			}}}
		}
		if prop == "C14" {
			return []Case{{Res: []RSpec{RAny{}, RAny{}}, Mem: []MSpec{{b.buf, RAny{}}, {b.err, RAny{}}}}}
		}
		err := x.errOf(b)
		buf := x.bufOf(b)
		if x.branch(x.tb.Not(x.isNil(err))) {
			return []Case{{Name: "after a failure", Res: []RSpec{RAny{}, RVal{err}}, Mem: []MSpec{{b.buf, RAny{}}}, Post: func(x *X, _ []Value) {
				x.oblige("nothing is sent", x.tb.Bool(len(sends(x)) == 0))
			}}}
		}
		return []Case{{Name: "no failure", Res: []RSpec{RAny{}, RAny{}}, Mem: []MSpec{{b.err, RNoErr{}}, {b.buf, RApp{Base: buf}}}, Post: func(x *X, res []Value) {
			if x.mute > 0 {
				return
			}
			evs := sends(x)
			x.oblige("the bytes are handed to the connection exactly once", x.tb.Bool(len(evs) == 1))
			if len(evs) != 1 {
				return
			}
			x.obligeSame("the context is handed on", c.args[1], evs[0].ctx)
			x.checkRope("the bytes handed on", evs[0].seq, evs[0].buf.n, []Piece{{seq: x.entrySeq(buf), n: buf.n, lab: "the bytes built"}})
			for i := range res {
				x.obligeSame("result "+itoa(i+1)+" is the connection's answer", evs[0].res[i], res[i])
			}
		}}}
	}}
	e.add(send)
	reset := &Contract{Key: "(*xtorm.XPipe).Reset", Props: []string{prop}, Only: true, Spec: func(c *Ctx) []Case {
		x := c.x
		b := c.b()
		if x.branch(x.disabledOf(b)) {
			return []Case{{Name: "while a callback builds", Panic: true}}
		}
		if prop == "C14" {
			return []Case{{Mem: []MSpec{{b.buf, RAny{}}, {b.err, RAny{}}}}}
		}
		return []Case{{Mem: []MSpec{{b.err, RNoErr{}}, {b.buf, RSym{func(x *X, v Value) []*Term { return []*Term{x.tb.Eq(v.(SliceVal).n, x.c64(0))} }}}}}}
	}}
	e.add(reset)
	send.Assume = func(c *Ctx) []*Term { return []*Term{c.x.tb.Not(c.x.isNil(c.args[2]))} }
	if prop == "C13" {
		notLocked(send)
		notLocked(reset)
		e.add(&Contract{Key: "xtorm.New", Props: []string{prop}, Only: true,
			Pre: func(c *Ctx) []*Term { return []*Term{c.x.tb.Ult(c.T(0), c.x.tb.BVBig(64, new2(40)))} },
			Spec: func(c *Ctx) []Case {
				return []Case{{Post: func(x *X, res []Value) {
					b := x.bld(res[0])
					x.oblige("a new builder is empty, without error and not locked", x.tb.And(x.tb.Eq(x.bufOf(b).n, x.c64(0)), x.isNil(x.errOf(b)), x.tb.Not(x.disabledOf(b))))
				}}}
			}})
	}
}
