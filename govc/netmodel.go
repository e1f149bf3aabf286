package main

// Model of the server's byte stream behind a bufio.Reader, and of parsing protobuf messages from it.
//
// A reader is a stream of bytes (arbitrary), a position, and the position where the stream ends or fails.
// Slices returned by Peek are windows into the reader's buffer: a later read leaves arbitrary bytes in them.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type readRec struct {
	p, n *Term
	obj  *Obj
}

type rdState struct {
	pos *Term
	ext *Term // bytes up to here are in the buffer for certain
	gen int
}

type reader struct {
	x   *X
	key string
	t   *Term // identity of the stream
}

func (x *X) reader(v Value) *reader {
	var t *Term
	switch r := v.(type) {
	case OpaqueVal:
		t = r.t
	case IfaceVal:
		if o, ok := r.val.(OpaqueVal); ok && r.term == nil {
			t = o.t
		}
	}
	if t == nil {
		x.unsupported("a reader that is not a *bufio.Reader")
	}
	r := &reader{x, fmt.Sprint("rd", t.id), t}
	if _, ok := x.st.ghost[r.key]; !ok {
		pos := x.tb.App("rdpos", SBV(64), t)
		x.assume(x.tb.Ule(pos, r.end()))
		x.assume(x.tb.Ult(r.end(), x.tb.BVBig(64, new2(61))))
		x.assume(x.tb.Ule(x.c64(16), r.size()))
		x.boundLen(r.size(), 40)
		x.st.ghost[r.key] = rdState{pos: pos, ext: pos}
	}
	return r
}

func (r *reader) st() rdState   { return r.x.st.ghost[r.key].(rdState) }
func (r *reader) set(s rdState) { r.x.st.ghost[r.key] = s }
func (r *reader) seq() Seq      { return &SymSeq{"srv", []*Term{r.t}} }
func (r *reader) end() *Term    { return r.x.tb.App("srvend", SBV(64), r.t) }
func (r *reader) size() *Term   { return r.x.tb.App("rdsize", SBV(64), r.t) }
func (r *reader) has(n *Term) *Term {
	tb := r.x.tb
	return tb.Ule(tb.Add(r.st().pos, n), r.end())
}

func (x *X) reads() []readRec {
	rs, _ := x.ghostData["reads"].([]readRec)
	return rs
}
func (x *X) addRead(p, n *Term, o *Obj) {
	rs := x.reads()
	x.ghostData["reads"] = append(rs[:len(rs):len(rs)], readRec{p, n, o})
}

// stale forgets the windows handed out by Peek.
func (r *reader) stale() {
	for _, k := range r.x.reads() {
		if k.obj != nil {
			r.x.st.bytes[k.obj.id] = r.x.symSeq("stale")
		}
	}
}

// ioErr is an error of the connection: neither nil nor one of the sentinels of the reader.
func (x *X) ioErr() IfaceVal {
	if s, ok := x.cx(); ok {
		s.failed = true
		x.setCx(s)
	}
	e := x.freshErr("ioerr")
	x.assume(x.tb.Ne(e.term, x.tb.Var("global_bufio.ErrBufferFull", SIface)))
	x.plainErr(e)
	return e
}

// plainErr notes that the error wraps nothing.
func (x *X) plainErr(e IfaceVal) {
	m, _ := x.ghostData["plain"].(map[*Term]bool)
	n := map[*Term]bool{e.term: true}
	for k := range m {
		n[k] = true
	}
	x.ghostData["plain"] = n
}

func (x *X) bytesWindow(seq Seq, n *Term, name string) SliceVal {
	o := x.newObj('b', types.NewSlice(types.Typ[types.Uint8]), name)
	o.fresh = false
	x.st.bytes[o.id] = seq
	cp := x.tb.Fresh("cap", SBV(64))
	x.assume(x.tb.Ule(n, cp))
	x.boundLen(cp, 46)
	return SliceVal{obj: o, off: x.c64(0), n: n, cap: cp, isnil: x.tb.False(), elem: types.Typ[types.Uint8]}
}

func (r *reader) peek(n *Term) Value {
	x, tb := r.x, r.x.tb
	x.oblige("Peek of a count that is not negative", tb.Not(tb.Slt(n, x.c64(0))))
	st := r.st()
	full := x.branch(tb.Ult(r.size(), n))
	if !full && x.branch(r.has(n)) {
		if x.decide(tb.Ule(tb.Add(st.pos, n), st.ext)) != 1 {
			r.stale()
			st.ext = tb.Add(st.pos, n)
			r.set(st)
		}
		w := x.bytesWindow(x.view(r.seq(), st.pos), n, "peeked")
		x.addRead(st.pos, n, w.obj)
		return TupleVal{w, IfaceVal{}}
	}
	r.stale()
	m := tb.Fresh("got", SBV(64))
	x.assume(tb.Ule(tb.Add(st.pos, m), r.end()))
	x.boundLen(m, 40)
	var err IfaceVal
	if full {
		err = IfaceVal{term: tb.Var("global_bufio.ErrBufferFull", SIface)}
		x.assume(tb.Not(x.isNil(err)))
	} else {
		x.assume(tb.Ult(m, n))
		err = x.ioErr()
	}
	w := x.bytesWindow(x.view(r.seq(), st.pos), m, "peeked")
	x.addRead(st.pos, m, w.obj)
	st.ext = tb.Add(st.pos, m)
	r.set(st)
	return TupleVal{w, err}
}

// skip advances by n bytes; false when the stream ends before.
func (r *reader) skip(n *Term) bool {
	x, tb := r.x, r.x.tb
	st := r.st()
	if x.decide(tb.Ule(tb.Add(st.pos, n), st.ext)) != 1 {
		r.stale()
		st.ext = tb.Add(st.pos, n)
	}
	if !x.branch(r.has(n)) {
		r.stale()
		r.set(rdState{pos: r.end(), ext: r.end()})
		return false
	}
	st.pos = tb.Add(st.pos, n)
	r.set(st)
	return true
}

func (r *reader) discard(n *Term) Value {
	x, tb := r.x, r.x.tb
	x.oblige("Discard of a count that is not negative", tb.Not(tb.Slt(n, x.c64(0))))
	if r.skip(n) {
		return TupleVal{n, IfaceVal{}}
	}
	m := tb.Fresh("skipped", SBV(64))
	x.assume(tb.Ult(m, n))
	return TupleVal{m, x.ioErr()}
}

func (r *reader) readFull(b SliceVal) Value {
	x, tb := r.x, r.x.tb
	p := r.st().pos
	if b.n.IsConst() && b.n.val.Sign() == 0 {
		return TupleVal{b.n, IfaceVal{}}
	}
	r.stale()
	st := r.st()
	st.ext = p
	r.set(st)
	if x.branch(r.has(b.n)) {
		x.writeBytes(b.obj, b.off, b.n, x.view(r.seq(), p), "io.ReadFull")
		q := tb.Add(p, b.n)
		r.set(rdState{pos: q, ext: q})
		x.addRead(p, b.n, nil)
		return TupleVal{b.n, IfaceVal{}}
	}
	x.writeBytes(b.obj, b.off, b.n, x.symSeq("partial"), "io.ReadFull")
	r.set(rdState{pos: r.end(), ext: r.end()})
	m := tb.Fresh("got", SBV(64))
	x.assume(tb.Ult(m, b.n))
	return TupleVal{m, x.ioErr()}
}

// streamSource finds the stretch of a server stream the bytes are.
func (x *X) streamSource(b SliceVal) (p, n *Term, ok bool) {
	rs := x.reads()
	for i := len(rs) - 1; i >= 0; i-- {
		r := rs[i]
		if x.decide(x.tb.Eq(r.n, b.n)) != 1 {
			continue
		}
		good := true
		for _, g := range x.ropeGoals(x.sliceSeq(b), b.n, []Piece{{seq: x.view(x.ghostData["stream"].(*reader).seq(), r.p), n: r.n, lab: "stream"}}) {
			if x.decide(g.t) != 1 {
				good = false
				break
			}
		}
		if good {
			return r.p, r.n, true
		}
	}
	return nil, nil, false
}

// parse terms: what the protobuf library finds in the n bytes at position p of the stream.
func (x *X) pbOK(msg string, p, n *Term) *Term {
	x.pbFacts(msg, p, n)
	return x.tb.App("pbok_"+msg, SBool, p, n)
}

func (x *X) pbFacts(msg string, p, n *Term) {
	tb := x.tb
	ok := tb.App("pbok_"+msg, SBool, p, n)
	// required fields are missing in an empty message; no field has number 0
	x.assume(tb.Implies(ok, tb.Ne(n, x.c64(0))))
	r := x.ghostData["stream"].(*reader)
	x.assume(tb.Implies(ok, tb.Ule(tb.BV(8, 8), r.seq().At(x, p))))
}

func (x *X) pbHas(msg, f string, p, n *Term) *Term {
	return x.tb.App("pbhas_"+msg+"_"+f, SBool, p, n)
}

func (x *X) pbVal(t types.Type, msg, f string, p, n *Term) Value {
	return x.fromTerm(t, x.tb.App("pb_"+msg+"_"+f, x.sortOf(t), p, n))
}

func (x *X) unmarshal(b SliceVal, m Value) Value {
	iv, ok := m.(IfaceVal)
	ptr, ok2 := iv.val.(PtrVal)
	if !ok || !ok2 || ptr.obj == nil {
		x.unsupported("proto.Unmarshal into an unknown message")
	}
	if _, ok := x.ghostData["stream"].(*reader); !ok {
		x.unsupported("proto.Unmarshal outside a server stream")
	}
	st := ptr.typ.Underlying().(*types.Struct)
	name := ptr.typ.(*types.Named).Obj().Name()
	p, n, found := x.streamSource(b)
	if !found {
		// bytes of unknown origin: anything may come out
		p, n = x.tb.Fresh("where", SBV(64)), b.n
	}
	good := x.branch(x.pbOK(name, p, n))
	sv := x.zero(ptr.typ).(StructVal)
	for _, f := range pbFields(st) {
		fn := st.Field(f.idx).Name()
		switch u := f.typ.Underlying().(type) {
		case *types.Pointer:
			if name == "ColumnMetaData" || !good {
				sv.fields[f.idx] = OpaqueVal{x.tb.Fresh("pbfield", SRef), f.typ} // not looked at
				continue
			}
			if !f.req && !x.branch(x.pbHas(name, fn, p, n)) {
				continue
			}
			o := x.newObj('s', u.Elem(), fn)
			x.st.vals[o.id] = x.pbVal(u.Elem(), name, fn, p, n)
			sv.fields[f.idx] = PtrVal{obj: o, typ: u.Elem()}
		case *types.Slice:
			if name == "ColumnMetaData" || !good {
				continue
			}
			v := x.pbVal(f.typ, name, fn, p, n).(SliceVal)
			v.obj.fresh = true
			sv.fields[f.idx] = v
		default:
			x.unsupported("protobuf field %s.%s", name, fn)
		}
	}
	x.store(ptr, sv, "Unmarshal")
	if !good {
		e := x.freshErr("pberr")
		x.plainErr(e)
		return e
	}
	return IfaceVal{}
}

func init() {
	why := "a window on the server's stream; fails when the stream ends, ErrBufferFull above the buffer size"
	ext("(*bufio.Reader).Peek", why, func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.reader(args[0]).peek(args[1].(*Term))
	})
	ext("(*bufio.Reader).Discard", "skips bytes; fails when the stream ends", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.reader(args[0]).discard(args[1].(*Term))
	})
	ext("(*bufio.Reader).Size", "the buffer size", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.reader(args[0]).size()
	})
	ext("io.ReadFull", "fills the slice from the stream, or fails", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.reader(args[0]).readFull(args[1].(SliceVal))
	})
	ext("io.CopyN", "skips bytes (into io.Discard)", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		w, ok := args[0].(IfaceVal)
		if !ok || w.term != x.tb.Var("global_io.Discard", SIface) {
			x.unsupported("io.CopyN to something other than io.Discard")
		}
		return x.reader(args[1]).discard(args[2].(*Term))
	})
	un := func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.unmarshal(args[0].(SliceVal), args[1])
	}
	ext("github.com/golang/protobuf/proto.Unmarshal", "fails or fills the message; the outcome is a function of the bytes; an empty message lacks required fields; field number 0 is refused; bytes are copied", un)
	ext("google.golang.org/protobuf/proto.Unmarshal", "as above", un)
}
