package main

// Contracts: behaviour cases over the pre-state, and the specification vocabulary.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Ctx struct {
	x    *X
	args []Value
	fn   *ssa.Function
	sig  *types.Signature
	call bool // applied at a call site (as opposed to being verified)
}

// Case is one behaviour. Cases are tried in order; the guard speaks about the pre-state.
type Case struct {
	Name  string
	G     *Term // nil: true
	Panic bool
	Res   []RSpec
	Mem   []MSpec
	Eff   func(x *X)              // effect on ghost state when applied at a call site
	Post  func(x *X, res []Value) // extra obligations when verified
	Facts func(x *X, res []Value) // extra facts when applied
}

type RSpec interface{}

type RApp struct { // result = base followed by the rope, sharing only base's memory or fresh memory
	Base SliceVal
	Rope []Piece
}
type RKeep struct { // result = base followed by at least Min bytes, whatever they are
	Base SliceVal
	Min  int64
}
type RVal struct{ V Value }
type RErr struct{}
type RNoErr struct{}
type RAny struct{}
type RSym struct {
	F func(x *X, v Value) []*Term
}
type RFn struct { // a function value, checked by running it
	Check func(x *X, f FuncVal)
	Apply func(x *X) Value
}
type RStr struct{ Rope []Piece } // a string with this content
type RBuf struct{ Rope []Piece } // a fresh byte slice with this content

type MSpec struct {
	P PtrVal
	R RSpec
}

type Region struct {
	S    SliceVal
	From *Term // writes allowed at indexes >= From (relative to the slice start)
	To   *Term // nil: unlimited
}

type Contract struct {
	Key         string
	Props       []string // properties for which this is a root obligation
	Also        []string // properties for which it is verified, and inlined into its callers if it fails
	Shards      int      // parts verified side by side; Args takes the cases of part x.shard
	Inline      []string // keys of functions inlined (contract ignored) while this one is verified
	Trusted     bool     // assumed, not verified
	Helper      bool     // may be dropped (then callers inline the body)
	Why         string
	Pre         func(c *Ctx) []*Term
	Assume      func(c *Ctx) []*Term // assumed when verified, not obliged at call sites (documented)
	Spec        func(c *Ctx) []Case
	Writes      func(c *Ctx) []Region
	Cands       func(c *Ctx) []*Cat
	Args        func(x *X, fn *ssa.Function) []Value // custom arbitrary arguments
	Loop        func(x *X, fr *Frame, L *Loop, phis []*ssa.Phi, vals []Value) *LoopSpec
	Ghost       *GhostLoop // invariant of loops that change ghost state
	Unfold      bool
	DerefOK     func(x *X, v *Term) *Term // when a loop may replace a value by what it points to
	AtCall      func(x *X, args []Value) // ghost checks at call sites
	Begin       func(c *Ctx)             // ghost set-up before verification
	NoInl       bool
	NonNilFuncs bool                 // functions in slices passed as arguments are not nil
	EffOnly     bool                 // Eff performs the writes at call sites; Writes only guards the verified body
	Only        bool                 // verified, but inlined at call sites
	Local       map[string]*Contract // contracts that replace others while this one is verified
}

// GhostLoop is the invariant of the ghost state in loops that change it. Check obliges it (on entry and
// at the back edge), Head forgets the ghost state and assumes it. Phis gives candidate values of the
// loop's variables in terms of the ghost state.
type GhostLoop struct {
	Always bool // cut loops whose exit is decided by a case split even when the ghost state does not change
	Check  func(x *X)
	Head   func(x *X)
	Phis   func(x *X, t types.Type, entry Value) []Value
}

// Cat is a concatenation over a vector (or another index space).
type Cat struct {
	name     string
	args     []*Term
	from, to *Term
	body     func(x *X, i *Term) Enc
	empty    bool // a condition on the items, without content
}

type Enc struct {
	r  []Piece
	ok *Term
}

func (x *X) okOf(e Enc) *Term {
	if e.ok == nil {
		return x.tb.True()
	}
	return e.ok
}

func (c *Cat) lenT(x *X, from, to *Term) *Term {
	if from == to || c.empty {
		return x.c64(0)
	}
	return x.tb.App("len_cat_"+c.name, SBV(64), append(append([]*Term(nil), c.args...), from, to)...)
}
func (c *Cat) okT(x *X, from, to *Term) *Term {
	if from == to {
		return x.tb.True()
	}
	return x.tb.App("ok_cat_"+c.name, SBool, append(append([]*Term(nil), c.args...), from, to)...)
}
func (c *Cat) seq(from, to *Term) Seq {
	return &SymSeq{"at_cat_" + c.name, append(append([]*Term(nil), c.args...), from, to)}
}
func (c *Cat) piece(x *X, from, to *Term) []Piece {
	if from == to || c.empty {
		return nil
	}
	return []Piece{{seq: c.seq(from, to), n: c.lenT(x, from, to), lab: "concat " + c.name}}
}

// ---- rope vocabulary ----

func (x *X) ropeLen(r []Piece) *Term {
	n := x.c64(0)
	for _, p := range r {
		n = x.tb.Add(n, p.n)
	}
	return n
}

// by makes literal bytes; each argument is an int or a BV8 term.
func (x *X) by(bs ...any) []Piece {
	var ts []*Term
	for _, b := range bs {
		switch b := b.(type) {
		case int:
			ts = append(ts, x.tb.BV(8, uint64(b)))
		case *Term:
			ts = append(ts, b)
		default:
			panic("by")
		}
	}
	return []Piece{{seq: &BytesSeq{ts}, n: x.c64(int64(len(ts))), lab: "bytes"}}
}

func (x *X) vlen(v *Term) *Term {
	if v.IsConst() {
		n := int64(1)
		for i := 1; i < 10 && v.val.BitLen() > 7*i; i++ {
			n++
		}
		return x.c64(n)
	}
	return x.tb.App("vlen", SBV(64), v)
}

func (x *X) varint(v *Term) []Piece {
	v = x.tb.Conv(v, 64, false)
	return []Piece{{seq: &VarintSeq{v}, n: x.vlen(v), lab: "varint"}}
}

func (x *X) lit(s string) []Piece {
	if s == "" {
		return nil
	}
	return []Piece{{seq: &ConstSeq{s}, n: x.c64(int64(len(s))), lab: fmt.Sprintf("%q", clip(s, 24))}}
}

func (x *X) le32(v *Term) []Piece {
	v = x.tb.Conv(v, 32, false)
	return x.by(x.tb.Extract(7, 0, v), x.tb.Extract(15, 8, v), x.tb.Extract(23, 16, v), x.tb.Extract(31, 24, v))
}

func (x *X) le(v *Term) []Piece {
	var bs []any
	for i := 0; i < v.sort.W; i += 8 {
		bs = append(bs, x.tb.Extract(i+7, i, v))
	}
	return x.by(bs...)
}

func (x *X) content(v Value) []Piece {
	switch s := v.(type) {
	case StrVal:
		if r, ok := s.seq.(*RopeSeq); ok {
			return r.ps
		}
		if c, ok := s.seq.(*ConstSeq); ok {
			return x.lit(c.s)
		}
		return []Piece{{seq: s.seq, n: s.n, lab: "string"}}
	case SliceVal:
		return []Piece{{seq: x.sliceSeq(s), n: s.n, lab: "bytes"}}
	}
	x.unsupported("content of %T", v)
	return nil
}

// anyBytes are n unspecified bytes.
func (x *X) anyBytes(n *Term) []Piece {
	return []Piece{{seq: x.symSeq("any"), n: n, lab: "any", any: true}}
}

func (x *X) contentLen(v Value) *Term {
	switch s := v.(type) {
	case StrVal:
		return s.n
	case SliceVal:
		return s.n
	}
	return nil
}

func cat(rs ...[]Piece) []Piece {
	var out []Piece
	for _, r := range rs {
		out = append(out, r...)
	}
	return out
}

// key is the protobuf key byte of a field number below 16.
func (x *X) key(tag any, wire int) *Term {
	switch t := tag.(type) {
	case int:
		return x.tb.BV(8, uint64(t<<3|wire))
	case *Term:
		return x.tb.BVBin("bvor", x.tb.BVBin("bvshl", t, x.tb.BV(8, 3)), x.tb.BV(8, uint64(wire)))
	}
	panic("key")
}

// fld is a length-delimited field.
func (x *X) fld(tag any, body ...[]Piece) []Piece {
	b := cat(body...)
	return cat(x.by(x.key(tag, 2)), x.varint(x.ropeLen(b)), b)
}

// vfld is a varint field.
func (x *X) vfld(tag any, v any) []Piece {
	switch v := v.(type) {
	case int:
		return cat(x.by(x.key(tag, 0)), x.varint(x.c64(int64(v))))
	case *Term:
		return cat(x.by(x.key(tag, 0)), x.varint(v))
	}
	panic("vfld")
}

// frame is one X Protocol message.
func (x *X) frame(typ int, body ...[]Piece) []Piece {
	b := cat(body...)
	return cat(x.le32(x.tb.Add(x.ropeLen(b), x.c64(1))), x.by(typ), b)
}

// opt is the rope when the condition holds, else nothing.
func (x *X) opt(c *Term, r []Piece) []Piece {
	switch x.decide(c) {
	case 1:
		return r
	case -1:
		return nil
	}
	var out []Piece
	for _, p := range r {
		out = append(out, Piece{seq: p.seq, n: x.tb.Ite(c, p.n, x.c64(0)), lab: "optional " + p.lab})
	}
	return out
}

// ---- scalars ----

func (x *X) zigzag(v *Term) *Term {
	w := v.sort.W
	z := x.tb.BVBin("bvxor", x.tb.BVBin("bvshl", v, x.tb.BV(w, 1)), x.tb.BVBin("bvashr", v, x.tb.BV(w, uint64(w-1))))
	return z
}

const (
	scSint   = 1
	scUint   = 2
	scNull   = 3
	scOctets = 4
	scDouble = 5
	scFloat  = 6
	scBool   = 7
	scString = 8
)

// wrap puts a Scalar body into an Any (kind 'a') or an Expr literal (kind 'e') under the given tag.
func (x *X) wrap(kind byte, tag any, scalar []Piece) []Piece {
	if kind == 'a' {
		return x.fld(tag, x.vfld(1, 1), x.fld(2, scalar))
	}
	return x.fld(tag, x.vfld(1, 2), x.fld(4, scalar))
}

func (x *X) scSint(v *Term) []Piece {
	return cat(x.vfld(1, scSint), x.vfld(2, x.tb.Conv(x.zigzag(v), 64, false)))
}
func (x *X) scUint(v *Term) []Piece {
	return cat(x.vfld(1, scUint), x.vfld(3, x.tb.Conv(v, 64, false)))
}
func (x *X) scNull() []Piece { return x.vfld(1, scNull) }
func (x *X) scBool(b *Term) []Piece {
	return cat(x.vfld(1, scBool), x.by(x.key(8, 0), x.tb.Ite(b, x.tb.BV(8, 1), x.tb.BV(8, 0))))
}
func (x *X) scDouble(bits *Term) []Piece {
	return cat(x.vfld(1, scDouble), x.by(x.key(6, 1)), x.le(bits))
}
func (x *X) scFloat(bits *Term) []Piece {
	return cat(x.vfld(1, scFloat), x.by(x.key(7, 5)), x.le(bits))
}
func (x *X) scOctets(body []Piece, ct *Term) []Piece {
	return cat(x.vfld(1, scOctets), x.fld(5, x.opt(x.tb.Ne(ct, x.tb.BV(ct.sort.W, 0)), x.vfld(2, x.tb.Conv(ct, 64, false))), x.fld(1, body)))
}
func (x *X) scString(body []Piece, coll *Term) []Piece {
	return cat(x.vfld(1, scString), x.fld(9, x.opt(x.tb.Ne(coll, x.tb.BV(coll.sort.W, 0)), x.vfld(2, x.tb.Conv(coll, 64, false))), x.fld(1, body)))
}

func (x *X) dec(v *Term) []Piece {
	v = x.tb.Conv(v, 64, false)
	n := x.tb.App("declen", SBV(64), v)
	return []Piece{{seq: &SymSeq{"at_dec", []*Term{v}}, n: n, lab: "decimal"}}
}

func init() {
	extraAxiom["declen"] = func(x *X, t *Term) []*Term {
		return []*Term{x.tb.Ule(x.c64(1), t), x.tb.Ule(t, x.c64(20))}
	}
	extraAxiom["len_timetext"] = func(x *X, t *Term) []*Term {
		return []*Term{x.tb.Ule(t, x.c64(100))}
	}
}

// durText is the MySQL TIME text of a duration.
func (x *X) durText(d *Term) []Piece {
	tb := x.tb
	neg := tb.Slt(d, x.c64(0))
	abs := d
	switch x.decide(neg) {
	case 1:
		abs = tb.Neg(d)
	case 0:
		abs = tb.Ite(neg, tb.Neg(d), d)
	}
	two := func(v *Term) []Piece {
		v8 := tb.Extract(7, 0, v)
		return x.by(tb.Add(tb.BV(8, '0'), tb.BVBin("bvudiv", v8, tb.BV(8, 10))), tb.Add(tb.BV(8, '0'), tb.BVBin("bvurem", v8, tb.BV(8, 10))))
	}
	div := func(c int64) *Term { return tb.BVBin("bvudiv", abs, x.c64(c)) }
	m := tb.BVBin("bvurem", div(60e9), x.c64(60))
	s := tb.BVBin("bvurem", div(1e9), x.c64(60))
	return cat(x.opt(neg, x.lit("-")), x.dec(div(3600e9)), x.lit(":"), two(m), x.lit(":"), two(s))
}

func (x *X) timeText(t Value) []Piece {
	tm := t.(OpaqueVal).t
	n := x.tb.App("len_timetext", SBV(64), tm)
	return []Piece{{seq: &SymSeq{"at_timetext", []*Term{tm}}, n: n, lab: "time text"}}
}
