package main

// Sending a unit of work: the network connection as a log of operations, and the contracts of the senders.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// netLog is what was done to the connection: 0 not yet, 1 done, 2 failed.
type netLog struct {
	dl, wr int
	k      *Term // answers read
	failed bool
}

type sendUnit struct {
	recv  Value
	conn  *Term
	ctx   Value
	b     SliceVal
	count *Term // messages in the unit
	resp  *Term // the server's answers
	err   IfaceVal
}

func (x *X) unit() *sendUnit {
	u, ok := x.ghostData["unit"].(*sendUnit)
	if !ok {
		x.unsupported("network operation outside the functions under contract")
	}
	return u
}

func (x *X) netLog() netLog     { return x.st.ghost["net"].(netLog) }
func (x *X) setNetLog(l netLog) { x.st.ghost["net"] = l }

// msgOff is where message k of the unit starts.
func (x *X) msgOff(k *Term) *Term {
	if k.IsConst() && k.val.Sign() == 0 {
		return x.c64(0)
	}
	return x.tb.App("msgoff", SBV(64), k)
}

func (u *sendUnit) at(x *X, i *Term) *Term { return x.entrySeq(u.b).At(x, i) }

// msgFacts: message k of a well-framed unit.
func (x *X) msgFacts(k *Term) {
	tb, u := x.tb, x.unit()
	o := x.msgOff(k)
	at := func(i int64) *Term { return u.at(x, tb.Add(o, x.c64(i))) }
	n := tb.Zext(64, tb.Concat(at(3), tb.Concat(at(2), tb.Concat(at(1), at(0)))))
	next := x.msgOff(tb.Add(k, x.c64(1)))
	in := tb.Ult(k, u.count)
	x.assume(tb.Ule(k, u.count))
	x.assume(tb.Ule(o, u.b.n))
	x.assume(tb.Implies(in, tb.And(tb.Eq(next, tb.Add(o, tb.Add(x.c64(4), n))), tb.Ule(x.c64(1), n), tb.Ule(next, u.b.n), tb.Ult(o, u.b.n))))
	x.assume(tb.Eq(tb.Eq(k, u.count), tb.Eq(o, u.b.n)))
}

// isFrame: the bytes are one message.
func (x *X) isFrame(b SliceVal) *Term {
	tb := x.tb
	if b.obj == nil {
		return tb.False()
	}
	at := func(i int64) *Term { return x.sliceSeq(b).At(x, x.c64(i)) }
	n := tb.Zext(64, tb.Concat(at(3), tb.Concat(at(2), tb.Concat(at(1), at(0)))))
	return tb.And(tb.Ule(x.c64(5), b.n), tb.Eq(tb.Add(n, x.c64(4)), b.n))
}

// sameElems compares the elements of two slices.
func (x *X) sameElems(a, b SliceVal) bool {
	if !x.sameT(a.n, b.n) {
		return false
	}
	p, q := x.normElems(x.subElems(a.obj, a.off, a.n)), x.normElems(x.subElems(b.obj, b.off, b.n))
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		s, t := p[i], q[i]
		switch {
		case s.n == nil && t.n == nil:
			if !x.sameValue(s.one, t.one) {
				return false
			}
		case s.n != nil && t.n != nil:
			if s.zero != t.zero || !x.sameT(s.n, t.n) || !s.zero && (s.vec != t.vec || !x.sameT(s.from, t.from)) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// normElems writes single elements of vectors as parts of them and joins adjacent parts.
func (x *X) normElems(segs []ESeg) []ESeg {
	var out []ESeg
	for _, s := range segs {
		if s.n == nil {
			if iv, ok := s.one.(IfaceVal); ok && iv.term != nil && iv.term.op == "app" && iv.term.name == "elem_"+sortTag(SIface) {
				s = ESeg{vec: iv.term.args[0], from: iv.term.args[1], n: x.c64(1)}
			}
		}
		if s.n != nil && x.decide(x.tb.Eq(s.n, x.c64(0))) == 1 {
			continue
		}
		if k := len(out) - 1; k >= 0 && s.n != nil && out[k].n != nil && !s.zero && !out[k].zero && out[k].vec == s.vec && x.decide(x.tb.Eq(x.tb.Add(out[k].from, out[k].n), s.from)) == 1 {
			out[k].n = x.tb.Add(out[k].n, s.n)
			continue
		}
		out = append(out, s)
	}
	return out
}

func init() {
	ctxTime := func(x *X, ctx Value, t types.Type) (OpaqueVal, *Term) {
		iv := ctx.(IfaceVal)
		if iv.term == nil {
			x.unsupported("a context that is not symbolic")
		}
		v := OpaqueVal{x.tb.App("ctx_deadline", SRef, iv.term), t}
		has := x.tb.App("ctx_has_deadline", SBool, iv.term)
		x.assume(x.tb.Implies(x.tb.Not(has), x.tb.Eq(v.t, x.tb.Var("zero_"+typeName(t), SRef))))
		return v, has
	}
	timeT := func(x *X) types.Type { return x.eng.namedType("time", "Time") }
	ext("iface:context.Context.Deadline", "the context's deadline; the zero time when there is none", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		v, has := ctxTime(x, args[0], timeT(x))
		return TupleVal{v, has}
	})
	ext("(time.Time).IsZero", "true of the zero time", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		v := args[0].(OpaqueVal)
		z := x.tb.App("iszero_time", SBool, v.t)
		x.assume(x.tb.Implies(x.tb.Eq(v.t, x.tb.Var("zero_"+typeName(timeT(x)), SRef)), z))
		return z
	})
	target := func(x *X, recv Value, what string) *sendUnit {
		u := x.unit()
		iv, ok := recv.(IfaceVal)
		x.oblige(what+" acts on the connection's own network connection", x.tb.Bool(ok && iv.term == u.conn))
		return u
	}
	ext("iface:net.Conn.SetDeadline", "succeeds or fails", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		u := target(x, args[0], "SetDeadline")
		l := x.netLog()
		x.oblige("the deadline is set once, before writing and reading "+x.pos2(in), x.tb.Bool(l.dl == 0 && l.wr == 0))
		v, _ := ctxTime(x, u.ctx, timeT(x))
		d, ok := args[1].(OpaqueVal)
		if !ok {
			x.unsupported("deadline value %T", args[1])
		}
		x.oblige("the deadline is the context's", x.tb.Eq(d.t, v.t))
		l.dl = 1
		var e IfaceVal
		if x.choose(2) == 1 {
			l.dl = 2
			e = x.ioErr()
		}
		x.setNetLog(l)
		return e
	})
	ext("iface:net.Conn.Write", "writes everything, or fails", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		u := target(x, args[0], "Write")
		l := x.netLog()
		x.oblige("the unit is written once, after its deadline was set, before reading "+x.pos2(in), x.tb.Bool(l.dl == 1 && l.wr == 0))
		b := args[1].(SliceVal)
		x.checkRope("what is written is the whole unit", x.sliceSeq(b), b.n, []Piece{{seq: x.entrySeq(u.b), n: u.b.n, lab: "the unit"}})
		l.wr = 1
		n := Value(b.n)
		var e IfaceVal
		if x.choose(2) == 1 {
			l.wr = 2
			e = x.ioErr()
			m := x.tb.Fresh("written", SBV(64))
			x.assume(x.tb.Ule(m, b.n))
			n = m
		}
		x.setNetLog(l)
		return TupleVal{n, e}
	})
}

func regSender(e *Engine) {
	const dir = "(*netx/connection.conn)."
	field := connField
	notNil := func(c *Ctx) []*Term {
		x := c.x
		if p, ok := c.args[0].(PtrVal); !ok || p.obj == nil {
			return []*Term{x.tb.False()}
		}
		return []*Term{x.tb.Not(x.isNil(field(x, c.args[0], "r"))), x.tb.Not(x.isNil(field(x, c.args[0], "netConn"))), x.tb.Not(x.isNil(c.args[1]))}
	}
	// reading one answer, seen from the senders: the k-th answer of the server, or a failure
	read := &Contract{Key: dir + "Read", Spec: func(c *Ctx) []Case {
		x, tb := c.x, c.x.tb
		u, l := x.unit(), x.netLog()
		x.oblige("answers are read from the connection itself", tb.Bool(x.sameValue(u.recv, c.args[0])))
		x.oblige("nothing is read before the unit was written or after a failure", tb.Bool(l.dl != 2 && l.wr == 1 && !l.failed))
		x.oblige("no more answers are read than the unit has messages", tb.Ult(l.k, u.count))
		x.oblige("the answer is read as the answer to its message's type", tb.Eq(c.T(2), tb.Zext(32, u.at(x, tb.Add(x.msgOff(l.k), x.c64(4))))))
		resp := IfaceVal{term: tb.App("elem_"+sortTag(SIface), SIface, u.resp, l.k)}
		l.k = tb.Add(l.k, x.c64(1))
		var err IfaceVal
		if x.choose(2) == 1 {
			l.failed = true
			err = x.freshErr("readerr")
			u2 := *u
			u2.err = err
			x.ghostData["unit"] = &u2
		} else {
			x.msgFacts(l.k)
		}
		x.setNetLog(l)
		return []Case{{Res: []RSpec{RVal{resp}, RVal{err}}}}
	}}
	begin := func(bIdx int, wr int) func(c *Ctx) {
		return func(c *Ctx) {
			x := c.x
			u := &sendUnit{recv: c.args[0], conn: field(x, c.args[0], "netConn").(IfaceVal).term, ctx: c.args[1], b: c.S(bIdx),
				count: x.tb.Var("messages", SBV(64)), resp: x.tb.Var("answers", SVec)}
			x.ghostData["unit"] = u
			x.assume(x.tb.Ule(u.count, u.b.n))
			x.setNetLog(netLog{dl: wr, wr: wr, k: x.c64(0)})
			x.entry = x.st.clone()
			x.msgFacts(x.c64(0))
		}
	}
	loop := &GhostLoop{
		Check: func(x *X) {
			l, u := x.netLog(), x.unit()
			x.oblige("loop invariant: the unit was written and no read failed", x.tb.Bool(l.wr == 1 && l.dl != 2 && !l.failed))
			x.oblige("loop invariant: no more answers than messages", x.tb.Ule(l.k, u.count))
		},
		Head: func(x *X) {
			l := x.netLog()
			l.k = x.tb.Fresh("K", SBV(64))
			x.setNetLog(l)
			x.msgFacts(l.k)
		},
		Phis: func(x *X, t types.Type, entry Value) []Value {
			u, k := x.unit(), x.netLog().k
			o := x.msgOff(k)
			switch tt := t.Underlying().(type) {
			case *types.Basic:
				if w, _, ok := intInfo(t); ok && w == 64 {
					return []Value{o, k}
				}
			case *types.Slice:
				if isByteType(tt.Elem()) {
					s := u.b
					s.off, s.n, s.cap = x.tb.Add(s.off, o), x.tb.Sub(s.n, o), x.tb.Sub(s.cap, o)
					return []Value{s}
				}
				s, ok := entry.(SliceVal)
				if !ok {
					return nil
				}
				n := x.tb.Add(s.n, k)
				cp := x.tb.Fresh("cap", SBV(64))
				x.assume(x.tb.Ule(n, cp))
				x.boundLen(cp, 46)
				ob := x.newObj('e', t, "responses")
				x.st.elems[ob.id] = &ERope{append(x.subElems(s.obj, s.off, s.n), ESeg{vec: u.resp, from: x.c64(0), n: k}, ESeg{zero: true, from: x.c64(0), n: x.tb.Sub(cp, n)})}
				return []Value{SliceVal{obj: ob, off: x.c64(0), n: n, cap: cp, isnil: x.tb.And(s.isnil, x.tb.Eq(k, x.c64(0))), elem: tt.Elem()}}
			}
			return nil
		},
	}
	// done checks the outcome: base is the slice given for the responses.
	done := func(x *X, res []Value, base *SliceVal, all bool) {
		tb := x.tb
		l, u := x.netLog(), x.unit()
		if l.dl == 2 || l.wr == 2 {
			x.oblige("a failure to set the deadline or to write is returned as an error", tb.Not(x.isNil(res[1])))
			x.oblige("nothing is read after such a failure", tb.Eq(l.k, x.c64(0)))
			return
		}
		x.oblige("the unit was written", tb.Bool(l.wr == 1))
		if l.failed {
			x.obligeSame("the error of the failed read is returned", u.err, res[1])
		} else {
			x.oblige("an answer was read for every message", tb.Eq(l.k, u.count))
			x.oblige("no error is returned", x.isNil(res[1]))
		}
		if base == nil {
			x.obligeSame("the answer is returned", IfaceVal{term: tb.App("elem_"+sortTag(SIface), SIface, u.resp, x.c64(0))}, res[0])
			return
		}
		if x.mute > 0 {
			return
		}
		ob := x.newObj('e', types.NewSlice(base.elem), "want")
		segs := append([]ESeg(nil), x.subElems(base.obj, base.off, base.n)...)
		x.st.elems[ob.id] = &ERope{append(segs, ESeg{vec: u.resp, from: x.c64(0), n: l.k})}
		n := tb.Add(base.n, l.k)
		got, ok := res[0].(SliceVal)
		x.oblige("the answers read are returned, in order", tb.Bool(ok && x.sameElems(got, SliceVal{obj: ob, off: x.c64(0), n: n, cap: n, isnil: tb.False(), elem: base.elem})))
	}
	frame := func(i int) func(c *Ctx) []*Term {
		return func(c *Ctx) []*Term {
			ps := notNil(c)
			if c.call {
				ps = append(ps, c.x.isFrame(c.S(i)))
			}
			return ps
		}
	}
	local := map[string]*Contract{dir + "Read": read}
	e.add(&Contract{Key: dir + "ReadResponsesToSlice", Props: []string{"C17"}, Only: true, Pre: notNil, Begin: begin(3, 1), Ghost: loop, Local: local,
		Writes: func(c *Ctx) []Region { return nil },
		Spec: func(c *Ctx) []Case {
			base := c.S(2)
			return []Case{{Post: func(x *X, res []Value) { done(x, res, &base, true) }}}
		}})
	e.add(&Contract{Key: dir + "Send", Props: []string{"C17"}, Also: []string{"C19"}, Pre: frame(2), Begin: begin(2, 0), Ghost: loop, Local: local,
		Writes: func(c *Ctx) []Region { return nil },
		Spec: func(c *Ctx) []Case {
			x := c.x
			if c.call {
				out := x.symVal(c.sig.Results().At(0).Type(), "responses")
				if x.choose(2) == 0 {
					return []Case{{Res: []RSpec{RVal{out}, RNoErr{}}}}
				}
				return []Case{{Res: []RSpec{RVal{out}, RErr{}}}}
			}
			base := x.nilSlice(c.sig.Results().At(0).Type().Underlying().(*types.Slice).Elem())
			return []Case{{Post: func(x *X, res []Value) { done(x, res, &base, true) }}}
		}})
	e.add(&Contract{Key: dir + "WriteOne", Props: []string{"C17"}, Also: []string{"C19"}, Pre: frame(2), Begin: func(c *Ctx) {
		begin(2, 0)(c)
		c.x.assume(c.x.tb.Eq(c.x.unit().count, c.x.c64(1)))
	}, Ghost: loop, Local: local,
		Writes: func(c *Ctx) []Region { return nil },
		Spec: func(c *Ctx) []Case {
			x, tb := c.x, c.x.tb
			if c.call {
				b := c.S(2)
				ct := tb.Zext(32, x.sliceSeq(b).At(x, x.c64(4)))
				hard := tb.Or(tb.Eq(ct, tb.BV(32, msgReset)), tb.Eq(ct, tb.BV(32, msgAuthStart)), tb.Eq(ct, tb.BV(32, msgAuthCont)))
				return []Case{x.readOutcome(c, ct, hard)}
			}
			return []Case{{Post: func(x *X, res []Value) { done(x, res, nil, false) }}}
		}})
}
