package main

// Channels and locks. The channel of the pool is a place where owned, healthy connections are handed over;
// other channels are only the done channels of contexts.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type connState struct {
	conn   *Term
	failed bool // its send failed
	full   bool // the pool was seen full when it was offered
}

// poolState is what the call under verification knows and owns.
type poolState struct {
	held   int   // 0 no lock, 1 shared, 2 exclusive
	closed *Term // the closed flag when it was last seen under the lock
	own    []connState
	uses   int  // sends made
	none   bool // no connection was idle when the call looked
	empty  bool // the channel was seen empty after the pool was known to be closed
	done   bool // the context was seen done
	newErr bool // the connector failed
	res    []Value
}

func (s poolState) find(t *Term) int {
	for i, c := range s.own {
		if c.conn == t {
			return i
		}
	}
	return -1
}

func (s poolState) drop(i int) poolState {
	s.own = append(append([]connState(nil), s.own[:i]...), s.own[i+1:]...)
	return s
}

func (s poolState) with(c connState) poolState {
	s.own = append(s.own[:len(s.own):len(s.own)], c)
	return s
}

// poolUnit are the fixed parts of a call.
type poolUnit struct {
	recv     PtrVal
	mu, flag []int // paths of the lock and of the closed flag
	ch       *Term
	ctx      Value
	b        SliceVal
	entry    *Term // the pool was closed before the call
	mayClose bool
}

func (x *X) poolU() *poolUnit {
	u, _ := x.ghostData["pool"].(*poolUnit)
	return u
}

func (x *X) pool() poolState {
	s, ok := x.st.ghost["pool"].(poolState)
	if !ok {
		x.unsupported("pool operation outside the functions under contract")
	}
	return s
}
func (x *X) setPool(s poolState) { x.st.ghost["pool"] = s }

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// lockOp: kind 2 Lock, 1 RLock, -2 Unlock, -1 RUnlock.
func (x *X) lockOp(v Value, kind int, in ssa.Instruction) {
	u := x.poolU()
	if u == nil {
		x.event("lock", v)
		return
	}
	p, ok := v.(PtrVal)
	if !ok || p.obj != u.recv.obj || !samePath(p.path, u.mu) {
		x.unsupported("a lock other than the pool's")
	}
	s := x.pool()
	if kind < 0 {
		x.oblige("the lock that is released is held "+x.pos2(in), x.tb.Bool(s.held == -kind))
		s.closed = x.walkPath(x.st.vals[p.obj.id], u.flag).(*Term)
		s.held = 0
		x.setPool(s)
		return
	}
	x.oblige("the lock is not taken twice "+x.pos2(in), x.tb.Bool(s.held == 0))
	// what other goroutines did meanwhile: the pool may have been closed, never reopened
	c := x.tb.Fresh("closed", SBool)
	x.assume(x.tb.Implies(s.closed, c))
	x.st.vals[p.obj.id] = x.setPath(x.st.vals[p.obj.id], u.flag, c)
	s.closed = c
	s.held = kind
	x.setPool(s)
}

func (x *X) poolLoad(p PtrVal, pos string) {
	u := x.poolU()
	if p.obj != u.recv.obj || len(p.path) > len(u.flag) || !samePath(p.path, u.flag[:len(p.path)]) {
		return
	}
	x.oblige("the closed flag is read under the lock "+pos, x.tb.Bool(x.pool().held > 0))
}

func (x *X) poolStore(p PtrVal) {
	u := x.poolU()
	if p.obj != u.recv.obj {
		return
	}
	if !samePath(p.path, u.flag) {
		x.oblige("only the closed flag of the pool changes", x.tb.False())
		return
	}
	s := x.pool()
	x.oblige("the closed flag is written under the lock", x.tb.Bool(s.held == 2))
	t := x.walkPath(x.st.vals[p.obj.id], u.flag).(*Term)
	x.oblige("the pool is closed by Close only and never reopened", x.tb.And(x.tb.Bool(u.mayClose), t))
	s.closed = x.tb.True()
	x.setPool(s)
}

const (
	chNil = iota
	chPool
	chDone
)

func (x *X) chanKind(v Value) int {
	o, ok := v.(OpaqueVal)
	if !ok {
		x.unsupported("channel %T", v)
	}
	u := x.poolU()
	switch {
	case o.t == x.tb.Var("nilref", SRef):
		return chNil
	case u != nil && o.t == u.ch:
		return chPool
	case o.t.op == "app" && o.t.name == "ctx_done":
		return chDone
	}
	x.unsupported("channel %s", clip(o.t.String(), 60))
	return 0
}

func (x *X) poolRecv() Value {
	s := x.pool()
	c := IfaceVal{term: x.tb.Fresh("idle", SIface)}
	x.assume(x.tb.Not(x.isNil(c)))
	x.setPool(s.with(connState{conn: c.term}))
	return c
}

// poolSend offers the connection to the pool; ok tells whether it was taken.
func (x *X) poolSend(v Value, ok bool, pos string) {
	s := x.pool()
	iv, _ := v.(IfaceVal)
	i := -1
	if iv.term != nil {
		i = s.find(iv.term)
	}
	x.oblige("only a connection that the call owns is offered to the pool "+pos, x.tb.Bool(i >= 0))
	if i < 0 {
		panic(abortPath{"not owned"})
	}
	x.oblige("a connection whose send failed is not offered to the pool "+pos, x.tb.Bool(!s.own[i].failed))
	x.oblige("connections are offered under the lock "+pos, x.tb.Bool(s.held > 0))
	x.oblige("connections are offered only to an open pool "+pos, x.tb.Not(s.closed))
	if ok {
		x.setPool(s.drop(i))
		return
	}
	c := s.own[i]
	c.full = true
	x.setPool(s.drop(i).with(c))
}

func (x *X) chanSend(fr *Frame, ch, v Value, in ssa.Instruction) {
	if x.poolU() == nil {
		x.unsupported("channel send %s", x.pos2(in))
	}
	x.oblige("offering a connection does not wait "+x.pos2(in), x.tb.False())
	panic(abortPath{"blocking send"})
}

func (x *X) chanRecv(fr *Frame, ch Value, commaOk bool, in ssa.Instruction) Value {
	t := in.(ssa.Value).Type()
	if commaOk {
		t = t.(*types.Tuple).At(0).Type()
	}
	var v Value
	switch x.chanKind(ch) {
	case chPool:
		x.oblige("waiting for an idle connection is not part of the pool "+x.pos2(in), x.tb.False())
		panic(abortPath{"blocking receive"})
	case chDone:
		x.seenDone()
		v = x.zero(t)
	default:
		x.unsupported("receive from nil channel %s", x.pos2(in))
	}
	if commaOk {
		return TupleVal{v, x.tb.False()}
	}
	return v
}

func (x *X) seenDone() {
	s := x.pool()
	s.done = true
	x.setPool(s)
}

func (x *X) chanClose(ch Value, in ssa.Instruction) {
	if x.poolU() == nil {
		x.unsupported("close %s", x.pos2(in))
	}
	x.oblige("the channel of idle connections is not closed, sends in flight may use it "+x.pos2(in), x.tb.False())
	panic(abortPath{"close"})
}

func (x *X) makeChan(t types.Type, n Value) Value {
	tb := x.tb
	c := n.(*Term)
	if c.sort.W != 64 {
		x.unsupported("channel size type")
	}
	if x.branch(tb.Slt(c, x.c64(0))) {
		panic(targetPanic{x.str("makechan: size out of range")})
	}
	v := OpaqueVal{tb.Fresh("chan", SRef), t}
	x.assume(tb.Not(x.isNil(v)))
	x.assume(tb.Eq(tb.App("cap_chan", SBV(64), v.t), c))
	return v
}

func (x *X) selectOp(fr *Frame, i *ssa.Select) Value {
	type opt struct {
		idx  int
		kind int
		ch   Value
	}
	var opts []opt
	poolR, poolS := false, []Value(nil)
	for j, st := range i.States {
		ch := x.eval(fr, st.Chan)
		k := x.chanKind(ch)
		if k == chNil {
			continue
		}
		opts = append(opts, opt{j, k, ch})
		if k == chPool {
			if st.Dir == types.RecvOnly {
				poolR = true
			} else {
				poolS = append(poolS, x.eval(fr, st.Send))
			}
		}
	}
	if i.Blocking {
		if poolR || len(poolS) > 0 {
			x.oblige("the pool does not wait for its channel "+x.pos2(i), x.tb.False())
			panic(abortPath{"blocking select"})
		}
		if len(opts) == 0 {
			x.unsupported("select without cases")
		}
	} else {
		opts = append(opts, opt{idx: -1})
	}
	o := opts[x.choose(len(opts))]
	out := TupleVal{x.c64(int64(o.idx)), x.tb.False()}
	for _, st := range i.States {
		if st.Dir == types.RecvOnly {
			out = append(out, x.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	if o.idx < 0 {
		s := x.pool()
		if poolR {
			s.none = true
			s.empty = s.empty || x.decide(s.closed) == 1
			x.setPool(s)
		}
		for _, v := range poolS {
			x.poolSend(v, false, x.pos2(i))
		}
		return out
	}
	st := i.States[o.idx]
	switch {
	case o.kind == chDone && st.Dir == types.RecvOnly:
		x.seenDone()
	case o.kind == chPool && st.Dir == types.RecvOnly:
		n := 2
		for j := 0; j < o.idx; j++ {
			if i.States[j].Dir == types.RecvOnly {
				n++
			}
		}
		out[1] = x.tb.True()
		out[n] = x.poolRecv()
	case o.kind == chPool:
		x.poolSend(x.eval(fr, st.Send), true, x.pos2(i))
	default:
		x.unsupported("select case %s", x.pos2(i))
	}
	return out
}
