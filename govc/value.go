package main

// Values, byte sequences and the symbolic heap.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Seq is a total function from a 64-bit index to a byte; lengths are kept outside.
type Seq interface {
	At(x *X, k *Term) *Term
}

type SymSeq struct {
	name string
	args []*Term
}

func (s *SymSeq) At(x *X, k *Term) *Term {
	return x.tb.App(s.name, SBV(8), append(append([]*Term(nil), s.args...), k)...)
}

type ConstSeq struct{ s string }

func (s *ConstSeq) At(x *X, k *Term) *Term {
	if k.IsConst() {
		if k.val.IsInt64() && k.val.Int64() < int64(len(s.s)) {
			return x.tb.BV(8, uint64(s.s[k.val.Int64()]))
		}
		return x.tb.BV(8, 0)
	}
	r := x.tb.BV(8, 0)
	for i := len(s.s) - 1; i >= 0; i-- {
		r = x.tb.Ite(x.tb.Eq(k, x.tb.BV(64, uint64(i))), x.tb.BV(8, uint64(s.s[i])), r)
	}
	return r
}

type BytesSeq struct{ b []*Term }

func (s *BytesSeq) At(x *X, k *Term) *Term {
	if k.IsConst() {
		if k.val.IsInt64() && k.val.Int64() < int64(len(s.b)) {
			return s.b[k.val.Int64()]
		}
		return x.tb.BV(8, 0)
	}
	r := x.tb.BV(8, 0)
	for i := len(s.b) - 1; i >= 0; i-- {
		r = x.tb.Ite(x.tb.Eq(k, x.tb.BV(64, uint64(i))), s.b[i], r)
	}
	return r
}

// ZeroSeq is all zero bytes.
type ZeroSeq struct{}

func (ZeroSeq) At(x *X, k *Term) *Term { return x.tb.BV(8, 0) }

// VarintSeq is the base-128 varint of a 64-bit value.
type VarintSeq struct{ v *Term }

func (s *VarintSeq) byteAt(x *X, i int) *Term {
	tb := x.tb
	hi := 7*i + 6
	var low *Term
	if hi < 64 {
		low = tb.Extract(hi, 7*i, s.v)
	} else {
		low = tb.Zext(7, tb.Extract(63, 63, s.v))
	}
	if i == 9 {
		return tb.Zext(8, low)
	}
	more := tb.Not(tb.Ult(s.v, tb.BVBig(64, new2(7*(i+1)))))
	return tb.Concat(tb.Ite(more, tb.BV(1, 1), tb.BV(1, 0)), low)
}

func (s *VarintSeq) At(x *X, k *Term) *Term {
	if k.IsConst() {
		if k.val.IsInt64() && k.val.Int64() < 10 {
			return s.byteAt(x, int(k.val.Int64()))
		}
		return x.tb.BV(8, 0)
	}
	r := x.tb.BV(8, 0)
	for i := 9; i >= 0; i-- {
		r = x.tb.Ite(x.tb.Eq(k, x.tb.BV(64, uint64(i))), s.byteAt(x, i), r)
	}
	return r
}

// LogSeq is prev overwritten on [off, off+n) by src.
type LogSeq struct {
	prev   Seq
	off, n *Term
	src    Seq
}

func (s *LogSeq) At(x *X, k *Term) *Term {
	var sq Seq = s
	type lv struct{ c, v *Term }
	var stack []lv
	var base *Term
	for {
		l, ok := sq.(*LogSeq)
		if !ok {
			base = sq.At(x, k)
			break
		}
		d := x.tb.Sub(k, l.off)
		c := x.inRange(d, l.n)
		if c.IsTrue() {
			base = l.src.At(x, d)
			break
		}
		if !c.IsFalse() {
			stack = append(stack, lv{c, l.src.At(x, d)})
		}
		sq = l.prev
	}
	for i := len(stack) - 1; i >= 0; i-- {
		base = x.tb.Ite(stack[i].c, stack[i].v, base)
	}
	return base
}

// inRange builds d <u n, simplifying with the syntactic forms that occur most.
func (x *X) inRange(d, n *Term) *Term {
	c := x.tb.Ult(d, n)
	if c.IsConst() {
		return c
	}
	if x.atOracle != nil {
		return x.atOracle(c)
	}
	return c
}

type ViewSeq struct {
	base Seq
	off  *Term
}

func (s *ViewSeq) At(x *X, k *Term) *Term { return s.base.At(x, x.tb.Add(k, s.off)) }

func (x *X) view(s Seq, off *Term) Seq {
	if off.IsConst() && off.val.Sign() == 0 {
		return s
	}
	if v, ok := s.(*ViewSeq); ok {
		return x.view(v.base, x.tb.Add(v.off, off))
	}
	if _, ok := s.(ZeroSeq); ok {
		return s
	}
	return &ViewSeq{s, off}
}

// MapSeq applies a function to positions (used for element-wise defined contents).
type FnSeq struct {
	f func(x *X, k *Term) *Term
}

func (s *FnSeq) At(x *X, k *Term) *Term { return s.f(x, k) }

// Piece is a sequence with a length.
type Piece struct {
	seq Seq
	n   *Term
	lab string
	any bool // unspecified bytes
}

// RopeSeq is a concatenation.
type RopeSeq struct{ ps []Piece }

func (s *RopeSeq) At(x *X, k *Term) *Term {
	d := k
	type lv struct{ c, v *Term }
	var stack []lv
	base := x.tb.BV(8, 0)
	for _, p := range s.ps {
		c := x.inRange(d, p.n)
		if c.IsTrue() {
			base = p.seq.At(x, d)
			break
		}
		if !c.IsFalse() {
			stack = append(stack, lv{c, p.seq.At(x, d)})
		}
		d = x.tb.Sub(d, p.n)
	}
	for i := len(stack) - 1; i >= 0; i-- {
		base = x.tb.Ite(stack[i].c, stack[i].v, base)
	}
	return base
}

// ---- values ----

type StrVal struct {
	seq  Seq
	n    *Term
	orig *Term // Str-sorted term this string is, if it came from one
}

type Obj struct {
	id    int
	kind  byte // 'b' bytes, 'e' elements, 's' single value
	typ   types.Type
	fam   int
	name  string
	fresh bool // allocated during the execution of the verified function
}

func (o *Obj) String() string { return fmt.Sprintf("%s#%d", o.name, o.id) }

type SliceVal struct {
	obj    *Obj // nil for a nil slice constant
	off    *Term
	n, cap *Term
	isnil  *Term
	elem   types.Type
	orig   *Term // Vec/Bytes-sorted term
}

type PtrVal struct {
	obj  *Obj
	path []int
	// element of a byte/element object
	idx *Term
	typ types.Type // pointee
}

type IfaceVal struct {
	typ  types.Type // concrete dynamic type, if known
	val  Value
	term *Term // symbolic Iface term
}

func (v IfaceVal) isNilConst() bool { return v.typ == nil && v.term == nil }

type FuncVal struct {
	fn   *ssa.Function
	bind []Value
	term *Term
	blt  *ssa.Builtin
	typ  types.Type
}

func (f FuncVal) isNilConst() bool { return f.fn == nil && f.term == nil && f.blt == nil }

type StructVal struct {
	typ    types.Type
	fields []Value
}

type ArrVal struct{ elems []Value }

type TupleVal []Value

// OpaqueVal is a value only known by a term (pointers to unknown objects, maps, channels, time.Time ...).
type OpaqueVal struct {
	t   *Term
	typ types.Type
}

type IterVal struct {
	m   *Term
	k   *Term // position
	obj *Obj  // iteration state object
}

// ---- element arrays ----

type ESeg struct {
	one  Value // when n is nil
	vec  *Term // vector term; elements vec[from..from+n)
	from *Term
	n    *Term
	zero bool
}

type ERope struct{ segs []ESeg }

func (x *X) segLen(s ESeg) *Term {
	if s.n == nil {
		return x.c64(1)
	}
	return s.n
}

// ---- state ----

type Event struct {
	kind string
	args []Value
}

type State struct {
	bytes  map[int]Seq
	elems  map[int]*ERope
	vals   map[int]Value
	fams   map[int][]*Obj
	pc     []*Term
	trace  []Event
	ghost  map[string]Value
	eqs    map[*Term]*Term
	eqMemo map[*Term]*Term
}

func newState() *State {
	return &State{bytes: map[int]Seq{}, elems: map[int]*ERope{}, vals: map[int]Value{}, fams: map[int][]*Obj{}, ghost: map[string]Value{}}
}

func (s *State) clone() *State {
	c := newState()
	for k, v := range s.bytes {
		c.bytes[k] = v
	}
	for k, v := range s.elems {
		c.elems[k] = v
	}
	for k, v := range s.vals {
		c.vals[k] = v
	}
	for k, v := range s.fams {
		c.fams[k] = v[:len(v):len(v)]
	}
	for k, v := range s.ghost {
		c.ghost[k] = v
	}
	c.eqs, c.eqMemo = s.eqs, s.eqMemo
	c.pc = s.pc[:len(s.pc):len(s.pc)]
	c.trace = s.trace[:len(s.trace):len(s.trace)]
	return c
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

func typeName(t types.Type) string {
	n := types.TypeString(t, func(p *types.Package) string {
		s := p.Path()
		if i := strings.LastIndexByte(s, '/'); i >= 0 {
			s = s[i+1:]
		}
		return s
	})
	switch n {
	case "byte":
		return "uint8"
	case "[]byte":
		return "[]uint8"
	}
	return n
}
