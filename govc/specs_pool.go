package main

// Contracts of the connection pool. Each call is verified on its own, against what every other goroutine
// is allowed to do: the closed flag changes under the lock and only from false to true, connections enter
// the channel under the lock while the pool is open, and whoever receives a connection owns it.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	lock := func(kind int) func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
			x.lockOp(args[0], kind, in)
			return nil
		}
	}
	const why = "mutual exclusion"
	ext("(*sync.Mutex).Lock", why, lock(2))
	ext("(*sync.Mutex).Unlock", why, lock(-2))
	ext("(*sync.RWMutex).Lock", why, lock(2))
	ext("(*sync.RWMutex).Unlock", why, lock(-2))
	ext("(*sync.RWMutex).RLock", why, lock(1))
	ext("(*sync.RWMutex).RUnlock", why, lock(-1))
	ext("iface:context.Context.Done", "the context's done channel", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		iv := args[0].(IfaceVal)
		if iv.term == nil {
			x.unsupported("a context that is not symbolic")
		}
		return OpaqueVal{x.tb.App("ctx_done", SRef, iv.term), types.NewChan(types.RecvOnly, types.NewStruct(nil, nil))}
	})
	owned := func(x *X, v Value, what string) int {
		s := x.pool()
		iv, _ := v.(IfaceVal)
		i := -1
		if iv.term != nil {
			i = s.find(iv.term)
		}
		x.oblige(what, x.tb.Bool(i >= 0))
		if i < 0 {
			panic(abortPath{"not owned"})
		}
		return i
	}
	send := func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		u := x.poolU()
		if u == nil {
			x.unsupported("Send outside the pool")
		}
		i := owned(x, args[0], "the connection that is used is owned by the call "+x.pos2(in))
		s := x.pool()
		c := s.own[i]
		x.oblige("a unit is sent once, on one connection "+x.pos2(in), x.tb.Bool(s.uses == 0 && !c.failed))
		x.oblige("nothing is sent by a pool that was closed before the call", x.tb.Not(u.entry))
		x.obligeSame("the caller's context is used", u.ctx, args[1])
		b := args[2].(SliceVal)
		x.checkRope("what is sent is the caller's unit", x.sliceSeq(b), b.n, []Piece{{seq: x.entrySeq(u.b), n: u.b.n, lab: "the unit"}})
		s.uses++
		r := x.symVal(types.NewSlice(x.eng.namedType(modPrefix+"/netx", "Response")), "responses")
		var e IfaceVal
		if x.choose(2) == 1 {
			e = x.freshErr("senderr")
			c.failed = true
			s = s.drop(i).with(c)
		}
		s.res = []Value{r, e}
		x.setPool(s)
		return TupleVal{r, e}
	}
	const sw = "answers, or fails"
	ext("iface:netx.Conn.Send", sw, send)
	ext("iface:netx.Sender.Send", sw, send)
	ext("iface:netx.Conn.IsSecure", "some answer", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.tb.Fresh("secure", SBool)
	})
	ext("iface:netx.Conn.Close", "closes the connection", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		if x.poolU() == nil {
			x.unsupported("Close outside the pool")
		}
		i := owned(x, args[0], "the connection that is closed is owned by the call (not closed before, not in the pool) "+x.pos2(in))
		s := x.pool()
		c := s.own[i]
		x.oblige("a healthy connection is closed only when the pool is full or closed "+x.pos2(in), x.tb.Or(x.tb.Bool(c.failed || c.full), s.closed))
		x.setPool(s.drop(i))
		if x.choose(2) == 1 {
			return x.ioErr()
		}
		return IfaceVal{}
	})
	ext("iface:netx.Connector.New", "a new connection, or an error", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		u := x.poolU()
		if u == nil {
			x.unsupported("New outside the pool")
		}
		s := x.pool()
		x.oblige("a connection is opened only when none is idle "+x.pos2(in), x.tb.Bool(s.none))
		x.oblige("nothing is opened by a pool that was closed before the call", x.tb.Not(u.entry))
		x.obligeSame("the connector is the pool's", connField(x, u.recv, "connector"), args[0])
		x.obligeSame("the caller's context is used", u.ctx, args[1])
		c := IfaceVal{term: x.tb.Fresh("newconn", SIface)}
		if x.choose(2) == 1 {
			s.newErr = true
			x.setPool(s)
			return TupleVal{c, x.ioErr()}
		}
		x.assume(x.tb.Not(x.isNil(c)))
		x.setPool(s.with(connState{conn: c.term}))
		return TupleVal{c, IfaceVal{}}
	})
}

func regPool(e *Engine) {
	const dir = "(*netx/pool/fifoch.poolCh)."
	// fields finds the lock, the closed flag, the channel and the connector.
	fields := func(x *X, t types.Type) (mu, flag, ch []int) {
		set := func(p *[]int, i []int, what string) {
			if *p != nil {
				x.unsupported("a pool with two fields that may be its %s", what)
			}
			*p = i
		}
		for _, l := range leaves(t) {
			switch {
			case strings.HasPrefix(typeName(l.typ), "sync."):
				set(&mu, l.path, "lock")
			case types.Identical(l.typ.Underlying(), types.Typ[types.Bool]):
				set(&flag, l.path, "closed flag")
			default:
				if _, ok := l.typ.Underlying().(*types.Chan); ok {
					set(&ch, l.path, "channel")
				}
			}
		}
		if mu == nil || flag == nil || ch == nil {
			x.unsupported("a pool without a lock, a closed flag and a channel")
		}
		return
	}
	pre := func(c *Ctx) []*Term {
		x := c.x
		p := c.args[0].(PtrVal)
		_, _, ch := fields(x, p.obj.typ)
		return []*Term{x.tb.Not(x.isNil(x.walkPath(x.st.vals[p.obj.id], ch))), x.tb.Not(x.isNil(connField(x, p, "connector"))), x.tb.Not(x.isNil(c.args[1]))}
	}
	begin := func(mayClose bool) func(c *Ctx) {
		return func(c *Ctx) {
			x := c.x
			p := c.args[0].(PtrVal)
			mu, flag, ch := fields(x, p.obj.typ)
			u := &poolUnit{recv: p, mu: mu, flag: flag, ctx: c.args[1], mayClose: mayClose}
			u.ch = x.walkPath(x.st.vals[p.obj.id], ch).(OpaqueVal).t
			u.entry = x.walkPath(x.st.vals[p.obj.id], flag).(*Term)
			if len(c.args) > 2 {
				u.b = c.S(2)
			}
			x.ghostData["pool"] = u
			x.setPool(poolState{closed: u.entry})
			x.onLoad = x.poolLoad
			x.onStore = x.poolStore
		}
	}
	mem := func(c *Ctx) []MSpec {
		x := c.x
		p := c.args[0].(PtrVal)
		_, flag, _ := fields(x, p.obj.typ)
		return []MSpec{{PtrVal{obj: p.obj, path: flag}, RAny{}}}
	}
	clean := func(x *X) poolState {
		s := x.pool()
		x.oblige("every connection was kept for reuse or closed", x.tb.Bool(len(s.own) == 0))
		x.oblige("the lock is released", x.tb.Bool(s.held == 0))
		return s
	}
	connT := func(t types.Type) bool { return typeName(t) == "netx.Conn" }
	loop := &GhostLoop{
		Always: true,
		Check: func(x *X) {
			s := x.pool()
			n := 0
			if x.ghostData["connphi"] != nil {
				n = 1
				// a loop over connections, unless one of its iterations starts without a connection
				if len(s.own) == 0 && !s.empty && !x.persist["weak"] && x.mute > 0 {
					x.persist["weak"] = true
					x.restart()
				}
				x.oblige("loop invariant: a connection was found or none is left", x.tb.Bool(x.persist["weak"] || len(s.own) > 0 || s.empty))
			}
			x.oblige("loop invariant: no connection is left behind", x.tb.Bool(len(s.own) <= n && (len(s.own) == 0 || !s.own[0].failed && !s.own[0].full)))
			x.oblige("loop invariant: the lock is not held and nothing was sent", x.tb.Bool(s.held == 0 && s.uses == 0))
		},
		Head: func(x *X) {
			s := x.pool()
			c := x.tb.Fresh("closed", SBool)
			x.assume(x.tb.Implies(s.closed, c))
			s.closed, s.own, s.none, s.empty, s.done, s.newErr = c, nil, false, false, false, false
			if x.ghostData["connphi"] != nil && !x.persist["weak"] && x.choose(2) == 1 {
				s.empty = true
				x.assume(c)
			} else if x.ghostData["connphi"] != nil && (!x.persist["weak"] || x.choose(2) == 1) {
				v := IfaceVal{term: x.tb.Fresh("idle", SIface)}
				x.assume(x.tb.Not(x.isNil(v)))
				s = s.with(connState{conn: v.term})
			}
			if (x.ghostData["connphi"] == nil || x.persist["weak"]) && x.ghostData["flagphi"] != nil && x.choose(2) == 1 {
				s.empty = true
				x.assume(c)
			}
			x.setPool(s)
		},
		Phis: func(x *X, t types.Type, entry Value) []Value {
			s := x.pool()
			switch {
			case connT(t):
				x.ghostData["connphi"] = true
				if len(s.own) == 0 {
					return []Value{IfaceVal{}}
				}
				return []Value{IfaceVal{term: s.own[0].conn}}
			case types.Identical(t.Underlying(), types.Typ[types.Bool]):
				x.ghostData["flagphi"] = true
				return []Value{x.tb.Bool(!s.empty), x.tb.Bool(s.empty), x.tb.Bool(len(s.own) > 0), x.tb.Bool(len(s.own) == 0)}
			}
			return nil
		},
	}
	errClosed := func(x *X) *Term { return x.tb.Var("global_"+modPrefix+"/netx/pool.ErrPoolClosed", SIface) }
	none := func(c *Ctx) []Region { return nil }
	e.add(&Contract{Key: dir + "Send", Props: []string{"C20"}, Pre: pre, Begin: begin(false), Ghost: loop, Writes: none,
		Why: "the channel holds only connections put there by Send (its own obligations); pools are made by New",
		Spec: func(c *Ctx) []Case {
			return []Case{{Mem: mem(c), Post: func(x *X, res []Value) {
				tb, u := x.tb, x.poolU()
				s := clean(x)
				if s.uses > 0 {
					x.obligeSame("the error of the connection is returned", s.res[1], res[1])
					g, ok := res[0].(SliceVal)
					w := s.res[0].(SliceVal)
					x.oblige("the answers of the connection are returned", tb.Bool(ok && (x.sameValue(w, g) || x.sameElems(w, g))))
					return
				}
				x.oblige("a send that sent nothing reports an error", tb.Not(x.isNil(res[1])))
				isClosed := tb.False()
				if iv := res[1].(IfaceVal); iv.term != nil {
					isClosed = tb.Eq(iv.term, errClosed(x))
				}
				x.oblige("a send of a pool that was closed before reports that", tb.Implies(u.entry, isClosed))
				if !s.done && !s.newErr {
					x.oblige("nothing is sent only because the pool is closed, the context is done or no connection could be opened", tb.And(isClosed, s.closed))
				}
			}}}
		}})
	e.add(&Contract{Key: dir + "Close", Props: []string{"C20"}, Pre: pre, Begin: begin(true), Ghost: loop, Writes: none,
		Why: "after the closed flag is set no connection enters the channel (an obligation of Send), so an empty channel stays empty",
		Spec: func(c *Ctx) []Case {
			return []Case{{Mem: mem(c), Post: func(x *X, res []Value) {
				s := clean(x)
				x.oblige("the pool is marked as closed", s.closed)
				if s.empty {
					return
				}
				x.oblige("close stops before all idle connections are closed only when the context is done", x.tb.Bool(s.done))
				x.oblige("and reports that", x.tb.Not(x.isNil(res[0])))
			}}}
		}})
	e.add(&Contract{Key: "netx/pool/fifoch.New", Props: []string{"C20"}, Spec: func(c *Ctx) []Case {
		x := c.x
		return []Case{{Name: "negative size", G: x.tb.Slt(c.T(1), x.c64(0)), Panic: true}, {Post: func(x *X, res []Value) {
			p, ok := res[0].(PtrVal)
			x.oblige("a new pool is returned", x.tb.Bool(ok && p.obj != nil && p.obj.fresh))
			if !ok || p.obj == nil {
				return
			}
			_, flag, ch := fields(x, p.obj.typ)
			sv := x.st.vals[p.obj.id]
			x.oblige("a new pool is open", x.tb.Not(x.walkPath(sv, flag).(*Term)))
			cv := x.walkPath(sv, ch).(OpaqueVal)
			x.oblige("a new pool has a channel", x.tb.Not(x.isNil(cv)))
			x.oblige("a new pool keeps as many connections as asked for", x.tb.Eq(x.tb.App("cap_chan", SBV(64), cv.t), c.T(1)))
			x.obligeSame("a new pool uses the given connector", c.args[0], connField(x, p, "connector"))
		}}}
	}})
}
