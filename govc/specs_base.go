package main

// Contracts of the lowest layer: package slice, the varint helpers, durations; and the specification
// vocabulary for Any and Expr encodings.

import (
	"go/types"
)

func registerAll(e *Engine) {
	for _, f := range []func(e *Engine){regBase, regXproto, regMsg, regRoot, regNet, regCollation, regDecimal, regAuth, regConn, regSender, regConnector, regPool} {
		f(e)
	}
	regMode(e, e.prop)
}

func (e *Engine) add(c *Contract) { e.contracts[c.Key] = c }

func (c *Ctx) T(i int) *Term    { return c.args[i].(*Term) }
func (c *Ctx) S(i int) SliceVal { return c.args[i].(SliceVal) }
func (c *Ctx) Str(i int) StrVal { return c.args[i].(StrVal) }

func nonneg(x *X, t *Term) *Term { return x.tb.Ult(t, x.tb.BVBig(64, new2(45))) }

// obligeSlice: s is the part [lo, lo+n) of whole.
func (x *X) obligePart(name string, s, whole SliceVal, lo, n *Term) {
	if x.mute > 0 {
		return
	}
	tb := x.tb
	if s.obj == nil || whole.obj == nil || s.obj != whole.obj {
		x.oblige(name+" is empty or lies in the buffer", tb.And(tb.Eq(s.n, x.c64(0)), tb.Eq(n, x.c64(0))))
		return
	}
	x.oblige(name+" lies at the right place and has the right length", tb.And(tb.Eq(s.n, n), tb.Eq(s.off, tb.Add(whole.off, lo))))
}

func regBase(e *Engine) {
	// ---- slice ----
	keep := func(x *X, head, in SliceVal, upto *Term) {
		if in.obj != nil && head.obj != nil && head.obj.fam == in.obj.fam {
			x.oblige("the extended buffer starts where the given one starts", x.tb.Eq(head.off, in.off))
		} else if head.obj != nil && !head.obj.fresh {
			x.oblige("the extended buffer is the given one or fresh memory", x.tb.False())
		}
		_ = upto
	}
	e.add(&Contract{Key: "slice.ForAppend", Props: []string{"C22"}, Only: true,
		Pre: func(c *Ctx) []*Term { return []*Term{nonneg(c.x, c.T(1))} },
		Spec: func(c *Ctx) []Case {
			in, n := c.S(0), c.T(1)
			return []Case{{Post: func(x *X, res []Value) {
				head, tail := res[0].(SliceVal), res[1].(SliceVal)
				x.oblige("extended length", x.tb.Eq(head.n, x.tb.Add(in.n, n)))
				keep(x, head, in, in.n)
				x.obligePart("the tail", tail, head, in.n, n)
				x.checkRope("kept bytes", x.sliceSeq(head), in.n, []Piece{{seq: x.entrySeq(in), n: in.n, lab: "given bytes"}})
			}}}
		}})
	e.add(&Contract{Key: "slice.Allocate", Props: []string{"C22"}, Only: true,
		Pre: func(c *Ctx) []*Term { return []*Term{nonneg(c.x, c.T(1))} },
		Spec: func(c *Ctx) []Case {
			in, n := c.S(0), c.T(1)
			return []Case{{Post: func(x *X, res []Value) {
				head, tail := res[0].(SliceVal), res[1].(SliceVal)
				x.oblige("allocated length", x.tb.Eq(tail.n, n))
				if tail.obj == nil {
					return
				}
				if in.obj != nil && tail.obj.fam == in.obj.fam {
					x.oblige("the allocation does not overlap the bytes in the buffer", x.tb.Or(x.tb.Eq(n, x.c64(0)), x.tb.Ule(x.tb.Add(in.off, in.n), tail.off)))
					x.oblige("the returned buffer keeps the given bytes and ends with the allocation", x.tb.And(x.tb.Eq(head.off, in.off), x.tb.Eq(head.n, x.tb.Add(in.n, n))))
					x.checkRope("kept bytes", x.sliceSeq(head), in.n, []Piece{{seq: x.entrySeq(in), n: in.n, lab: "given bytes"}})
				} else if !tail.obj.fresh {
					x.oblige("the allocation is fresh memory", x.tb.False())
				}
				x.obligePart("the allocation", tail, head, x.tb.Sub(head.n, n), n)
			}}}
		}})
	e.add(&Contract{Key: "slice.Insert", Props: []string{"C22"}, Only: true,
		Pre: func(c *Ctx) []*Term {
			x := c.x
			return []*Term{nonneg(x, c.T(2)), x.tb.Ule(c.T(1), c.S(0).n)}
		},
		Writes: func(c *Ctx) []Region { return []Region{{S: c.S(0), From: c.T(1)}} },
		Spec: func(c *Ctx) []Case {
			in, pos, n := c.S(0), c.T(1), c.T(2)
			return []Case{{Post: func(x *X, res []Value) {
				r := res[0].(SliceVal)
				x.oblige("length after opening the gap", x.tb.Eq(r.n, x.tb.Add(in.n, n)))
				keep(x, r, in, pos)
				if r.obj == nil {
					return
				}
				x.checkRope("bytes before the gap", x.sliceSeq(r), pos, []Piece{{seq: x.entrySeq(in), n: pos, lab: "given bytes"}})
				rest := x.tb.Sub(in.n, pos)
				x.checkRope("bytes after the gap", x.view(x.sliceSeq(r), x.tb.Add(pos, n)), rest, []Piece{{seq: x.view(x.entrySeq(in), pos), n: rest, lab: "given bytes"}})
			}}}
		}})

	// ---- varints ----
	for _, k := range []string{"xproto.sizeVarint", "xproto.sizeVarint8", "xproto.sizeVarint16", "xproto.sizeVarint32", "xproto.sizeVarint64"} {
		e.add(&Contract{Key: k, Helper: true, Spec: func(c *Ctx) []Case {
			return []Case{{Res: []RSpec{RVal{c.x.vlen(c.x.tb.Conv(c.T(0), 64, false))}}}}
		}})
	}
	put := func(c *Ctx) []Case {
		b, v := c.S(0), c.T(1)
		x := c.x
		n := x.vlen(v)
		return []Case{{
			Res: []RSpec{RVal{n}},
			Eff: func(x *X) {
				if b.obj != nil {
					x.writeBytes(b.obj, b.off, n, &VarintSeq{v}, "varint")
				}
			},
			Post: func(x *X, res []Value) {
				x.checkRope("written bytes", x.sliceSeq(b), n, x.varint(v))
			},
		}}
	}
	for _, k := range []string{"xproto.putUvarint", "encoding/binary.PutUvarint"} {
		e.add(&Contract{Key: k, Helper: true, EffOnly: true, Spec: put,
			Pre: func(c *Ctx) []*Term { return []*Term{c.x.tb.Ule(c.x.vlen(c.T(1)), c.S(0).n)} },
			Writes: func(c *Ctx) []Region {
				return []Region{{S: c.S(0), From: c.x.c64(0), To: c.x.vlen(c.T(1))}}
			}})
	}
	e.add(&Contract{Key: "encoding/binary.AppendUvarint", Helper: true, Spec: func(c *Ctx) []Case {
		return []Case{{Res: []RSpec{RApp{c.S(0), c.x.varint(c.T(1))}}}}
	}})
	wire := func(c *Ctx) []Case {
		return []Case{{Res: []RSpec{RApp{c.S(0), c.x.fld(c.T(1), c.x.content(c.args[2]))}}}}
	}
	e.add(&Contract{Key: "xproto.appendWireString", Helper: true, Spec: wire})
	e.add(&Contract{Key: "xproto.appendWireBytes", Helper: true, Spec: wire})
	e.add(&Contract{Key: "xproto.encodeBool", Helper: true, Spec: func(c *Ctx) []Case {
		x := c.x
		return []Case{{Res: []RSpec{RVal{x.tb.Ite(c.T(0), x.tb.BV(8, 1), x.tb.BV(8, 0))}}}}
	}})

	// ---- durations ----
	e.add(&Contract{Key: "xproto.AppendDuration", Props: []string{"C01", "C02", "C04"}, Spec: func(c *Ctx) []Case {
		return []Case{{Res: []RSpec{RApp{c.S(0), c.x.durText(c.T(1))}}}}
	}})
}

// ---- Any and Expr ----

type encKind byte

const (
	anyK  encKind = 'a'
	exprK encKind = 'e'
)

func (k encKind) name() string {
	if k == anyK {
		return "encany"
	}
	return "encexpr"
}

func (x *X) ufEnc(name string, args ...*Term) Enc {
	n := x.tb.App("len_"+name, SBV(64), args...)
	return Enc{[]Piece{{seq: &SymSeq{"at_" + name, args}, n: n, lab: name}}, x.tb.App("ok_"+name, SBool, args...)}
}

// tagTerm turns a tag into a BV8 term.
func (x *X) tagTerm(tag any) *Term {
	switch t := tag.(type) {
	case int:
		return x.tb.BV(8, uint64(t))
	case *Term:
		return t
	}
	panic("tag")
}

// enc is the encoding of a Go value held in an interface, as an argument (Any) or operand (Expr).
func (x *X) enc(k encKind, tag any, v IfaceVal) Enc {
	if v.term != nil {
		return x.ufEnc(k.name(), x.tagTerm(tag), v.term)
	}
	if v.typ == nil {
		return Enc{r: x.wrap(byte(k), tag, x.scNull())}
	}
	if e, ok := x.encTyped(k, tag, v.typ, v.val); ok {
		return e
	}
	if k == exprK && typeName(v.typ) == "xproto.AppendExprFunc" {
		return x.fnEnc(v.val.(FuncVal), tag)
	}
	x.unsupported("encoding of a %s", v.typ)
	return Enc{}
}

// fnEnc is what a symbolic expression function appends.
func (x *X) fnEnc(f FuncVal, tag any) Enc {
	if f.term == nil {
		x.unsupported("encoding of a concrete function value")
	}
	return x.ufEnc("fnenc", f.term, x.tagTerm(tag))
}

// encTyped is the table of built-in types.
func (x *X) encTyped(k encKind, tag any, t types.Type, v Value) (Enc, bool) {
	w := func(sc []Piece) (Enc, bool) { return Enc{r: x.wrap(byte(k), tag, sc)}, true }
	switch typeName(t) {
	case "int", "int8", "int16", "int32", "int64":
		return w(x.scSint(v.(*Term)))
	case "uint", "uint8", "uint16", "uint32", "uint64":
		return w(x.scUint(v.(*Term)))
	case "bool":
		return w(x.scBool(v.(*Term)))
	case "float32":
		return w(x.scFloat(v.(*Term)))
	case "float64":
		return w(x.scDouble(v.(*Term)))
	case "string":
		return w(x.scString(x.content(v), x.tb.BV(64, 0)))
	case "[]byte", "[]uint8":
		s := v.(SliceVal)
		if x.branch(s.isnil) {
			return w(x.scNull())
		}
		return w(x.scOctets(x.content(v), x.tb.BV(64, 0)))
	case "time.Time":
		return w(x.scOctets(x.timeText(v), x.tb.BV(64, 0)))
	case "time.Duration":
		return w(x.scOctets(x.durText(v.(*Term)), x.tb.BV(64, 0)))
	}
	return Enc{}, false
}

var builtinTypes = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "bool", "float32", "float64", "string", "[]byte", "time.Time", "time.Duration"}

func (e *Engine) typeNamed(n string) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, t := range e.typeByID[:e.nBase] {
		if tn := typeName(t); tn == n || n == "[]byte" && tn == "[]uint8" {
			return t
		}
	}
	return nil
}

// encCases is the definition of enc, as behaviours of the encoder for a symbolic value.
func encCases(x *X, k encKind, p SliceVal, tag any, v0 IfaceVal) []Case {
	tb := x.tb
	v := v0
	derefd := tb.False()
	if d, ok := x.derefs[v.term]; ok {
		v = IfaceVal{term: d.t}
		derefd = d.d
	}
	d := x.dyn(v.term)
	okc := func(name string, g *Term, e Enc) []Case {
		ok := x.okOf(e)
		return []Case{
			{Name: name, G: tb.And(g, ok), Res: []RSpec{RApp{p, e.r}, RNoErr{}}},
			{Name: name + " fails", G: g, Res: []RSpec{RAny{}, RErr{}}},
		}
	}
	null := Enc{r: x.wrap(byte(k), tag, x.scNull())}
	// only the branch that applies is built: find it by case split
	if x.branch(tb.Eq(d, tb.BV(32, 0))) {
		if x.branch(derefd) {
			return []Case{{Name: "pointer to a nil interface"}}
		}
		return okc("nil", tb.True(), null)
	}
	for _, n := range builtinTypes {
		t := x.eng.typeNamed(n)
		if x.branch(tb.Eq(d, x.tid(t))) {
			e, _ := x.encTyped(k, tag, t, x.payload(v.term, t))
			return okc(n, tb.True(), e)
		}
	}
	if k == exprK {
		t := x.eng.typeNamed("xproto.AppendExprFunc")
		if x.branch(tb.Eq(d, x.tid(t))) {
			return okc("expression", tb.True(), x.fnEnc(x.payload(v.term, t).(FuncVal), tag))
		}
		if x.branch(x.implements(v.term, x.eng.namedType(modPrefix+"/xproto", "AppendExpr"))) {
			return okc("custom expression", tb.True(), x.ufEnc("userexpr", v.term, x.tagTerm(tag)))
		}
		return []Case{{Name: "unsupported type", Res: []RSpec{RAny{}, RErr{}}}}
	}
	if x.branch(x.implements(v.term, x.eng.namedType(modPrefix+"/xproto", "AppendAny"))) {
		return okc("custom argument", tb.True(), x.ufEnc("userany", v.term, x.tagTerm(tag)))
	}
	if x.branch(tb.Eq(x.rkind(v.term), x.c64(kindPtr))) {
		if x.branch(x.rnil(v.term)) {
			return okc("nil pointer", tb.True(), null)
		}
		return okc("pointer", tb.True(), x.enc(k, tag, IfaceVal{term: tb.App("iface_deref", SIface, v.term)}))
	}
	return []Case{{Name: "unsupported type", Res: []RSpec{RAny{}, RErr{}}}}
}

// encSpec is the contract of appendAny and appendExpr.
func encSpec(k encKind) func(c *Ctx) []Case {
	return func(c *Ctx) []Case {
		x := c.x
		v := c.args[2].(IfaceVal)
		p := c.S(0)
		if !c.call && v.term != nil {
			return encCases(x, k, p, c.T(1), v)
		}
		return x.encAppCases(p, x.enc(k, c.T(1), v))
	}
}

// encAppCases: append the encoding, or fail when it is not encodable.
func (x *X) encAppCases(p SliceVal, e Enc) []Case {
	ok := x.okOf(e)
	return []Case{
		{Name: "encodable", G: ok, Res: []RSpec{RApp{p, e.r}, RNoErr{}}},
		{Name: "not encodable", Res: []RSpec{RAny{}, RErr{}}, Eff: func(x *X) { x.clobberSpare(p) }},
	}
}

// clobberSpare forgets the bytes behind the end of a buffer (a failed encoder may have written there).
func (x *X) clobberSpare(p SliceVal) {
	if p.obj == nil {
		return
	}
	end := x.tb.Add(p.off, p.n)
	n := x.tb.BVBig(64, new2(46))
	x.checkGuard(p.obj, end, n, "a failed encoder")
	x.st.bytes[p.obj.id] = &LogSeq{x.st.bytes[p.obj.id], end, n, x.symSeq("hv")}
	x.havocOthers(p.obj, end, n)
}

// catOver is the concatenation of f over the elements of a slice, with the condition that all are encodable.
func (x *X) catOver(name string, s SliceVal, f func(x *X, v Value) Enc) Enc {
	var e Enc
	e.ok = x.tb.True()
	for _, sg := range x.subElems(s.obj, s.off, s.n) {
		if sg.n == nil {
			one := f(x, sg.one)
			e.r = append(e.r, one.r...)
			e.ok = x.tb.And(e.ok, x.okOf(one))
			continue
		}
		if x.decide(x.tb.Eq(sg.n, x.c64(0))) == 1 {
			continue
		}
		if sg.zero {
			x.unsupported("concatenation over zero elements")
		}
		c := x.catOf(name, s.elem, sg, f)
		e.r = append(e.r, c.piece(x, c.from, c.to)...)
		e.ok = x.tb.And(e.ok, c.okT(x, c.from, c.to))
	}
	return e
}

func (x *X) catOf(name string, elem types.Type, sg ESeg, f func(x *X, v Value) Enc) *Cat {
	return &Cat{name: name, args: []*Term{sg.vec}, from: sg.from, to: x.tb.Add(sg.from, sg.n), body: func(x *X, i *Term) Enc {
		return f(x, x.vecElem(elem, sg.vec, i))
	}}
}

// catsOf lists the concatenations over the symbolic parts of a slice: candidates for loop invariants.
func (x *X) catsOf(name string, s SliceVal, f func(x *X, v Value) Enc) []*Cat {
	var out []*Cat
	for _, sg := range x.subElems(s.obj, s.off, s.n) {
		if sg.n != nil && !sg.zero {
			out = append(out, x.catOf(name, s.elem, sg, f))
		}
	}
	return out
}
