package main

// Models of functions outside the repository, channels, maps and globals.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type extern func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value

var externs = map[string]extern{}

// externWhy documents each model for the evidence.
var externWhy = map[string]string{}

func ext(name, why string, f extern) { externs[name] = f; externWhy[name] = why }

func (x *X) freshErr(hint string) IfaceVal {
	e := IfaceVal{term: x.tb.Fresh(hint, SIface)}
	x.assume(x.tb.Not(x.isNil(e)))
	return e
}

// ifaceTerm gives a term for an interface value, interning concrete ones by their content where possible.
func (x *X) ifaceTerm(v IfaceVal) *Term {
	if v.term != nil {
		return v.term
	}
	return nil
}

func init() {
	blen := func(w int) extern {
		return func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
			t := args[0].(*Term)
			if t.IsConst() {
				return x.c64(int64(t.val.BitLen()))
			}
			return x.tb.App("blen", SBV(64), x.tb.Conv(t, 64, false))
		}
	}
	for _, n := range []string{"math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64"} {
		ext(n, "number of significant bits", blen(64))
	}
	for n, w := range map[string]int64{"math/bits.LeadingZeros": 64, "math/bits.LeadingZeros8": 8, "math/bits.LeadingZeros16": 16, "math/bits.LeadingZeros32": 32, "math/bits.LeadingZeros64": 64} {
		w := w
		ext(n, "width less the number of significant bits", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
			return x.tb.Sub(x.c64(w), blen(64)(x, fn, args, in).(*Term))
		})
	}
	ext("math/bits.Mul64", "128-bit product", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		tb := x.tb
		p := tb.BVBin("bvmul", tb.Zext(128, args[0].(*Term)), tb.Zext(128, args[1].(*Term)))
		return TupleVal{tb.Extract(127, 64, p), tb.Extract(63, 0, p)}
	})
	ext("math/bits.Add64", "sum with carry", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		tb := x.tb
		p := tb.Add(tb.Zext(66, args[0].(*Term)), tb.Zext(66, args[1].(*Term)), tb.Zext(66, args[2].(*Term)))
		return TupleVal{tb.Extract(63, 0, p), tb.Zext(64, tb.Extract(64, 64, p))}
	})
	id := func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value { return args[0] }
	ext("math.Float64bits", "bit pattern (floats are bit patterns here)", id)
	ext("math.Float32bits", "bit pattern (floats are bit patterns here)", id)
	ext("strconv.AppendUint", "appends the decimal digits for base 10", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		if b := args[2].(*Term); !b.IsConst() || b.val.Int64() != 10 {
			x.unsupported("strconv.AppendUint with base other than 10")
		}
		d := x.dec(args[1].(*Term))
		return x.appendBytes(args[0].(SliceVal), d[0].seq, d[0].n, x.pos2(in))
	})
	ext("strconv.FormatUint", "decimal digits for base 10", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		if b := args[1].(*Term); !b.IsConst() || b.val.Int64() != 10 {
			x.unsupported("strconv.FormatUint with base other than 10")
		}
		d := x.dec(args[0].(*Term))
		return StrVal{seq: &RopeSeq{d}, n: d[0].n}
	})
	itoaF := func(x *X, v *Term) Value {
		if x.decide(x.tb.Not(x.tb.Slt(v, x.c64(0)))) != 1 {
			x.unsupported("decimal text of a possibly negative number")
		}
		d := x.dec(v)
		return StrVal{seq: &RopeSeq{d}, n: d[0].n}
	}
	ext("strconv.Itoa", "decimal digits of a non-negative number", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return itoaF(x, args[0].(*Term))
	})
	ext("strconv.FormatInt", "decimal digits of a non-negative number", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		if b := args[1].(*Term); !b.IsConst() || b.val.Int64() != 10 {
			x.unsupported("strconv.FormatInt with base other than 10")
		}
		return itoaF(x, args[0].(*Term))
	})
	ext("strconv.AppendInt", "decimal digits of a non-negative number", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		v := args[1].(*Term)
		if b := args[2].(*Term); !b.IsConst() || b.val.Int64() != 10 || x.decide(x.tb.Not(x.tb.Slt(v, x.c64(0)))) != 1 {
			x.unsupported("strconv.AppendInt outside its model")
		}
		d := x.dec(v)
		return x.appendBytes(args[0].(SliceVal), d[0].seq, d[0].n, x.pos2(in))
	})
	ext("errors.New", "a non-nil error", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.freshErr("err")
	})
	ext("fmt.Errorf", "a non-nil error", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		e := x.freshErr("err")
		if s, ok := args[0].(StrVal); ok {
			if c, ok := s.seq.(*ConstSeq); ok && strings.Contains(c.s, "%w") {
				x.wraps(e, args[1])
			} else if ok {
				x.plainErr(e)
			}
		}
		return e
	})
	ext("fmt.Sprintf", "the text for %d, %s and %v of numbers and strings, some string otherwise", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		if s, ok := x.sprintf(args); ok {
			return s
		}
		return x.symVal(types.Typ[types.String], "sprintf")
	})
	sprint := func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		if s, ok := x.sprint(args, fn.Name() == "Sprintln"); ok {
			return s
		}
		return x.symVal(types.Typ[types.String], "sprint")
	}
	ext("fmt.Sprint", "the texts of numbers and strings, with spaces between operands when neither is a string; some string otherwise", sprint)
	ext("(time.Time).AppendFormat", "appends the text of the time in the given layout (only the exact layout of the specification is known)", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		lay, ok := args[2].(StrVal)
		c, isC := lay.seq.(*ConstSeq)
		if !ok || !isC {
			x.unsupported("time layout is not a constant")
		}
		name := "timetext"
		if c.s != "2006-01-02 15:04:05.000000000" {
			name = "timetext_" + c.s
		}
		tm := args[0].(OpaqueVal).t
		n := x.tb.App("len_"+name, SBV(64), tm)
		return x.appendBytes(args[1].(SliceVal), &SymSeq{"at_" + name, []*Term{tm}}, n, x.pos2(in))
	})
	ext("(time.Time).Format", "text of the time in the given layout", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		lay, ok := args[1].(StrVal)
		c, isC := lay.seq.(*ConstSeq)
		if !ok || !isC {
			x.unsupported("time layout is not a constant")
		}
		name := "timetext"
		if c.s != "2006-01-02 15:04:05.000000000" {
			name = "timetext_" + c.s
		}
		tm := args[0].(OpaqueVal).t
		n := x.tb.App("len_"+name, SBV(64), tm)
		return StrVal{seq: &SymSeq{"at_" + name, []*Term{tm}}, n: n}
	})
	// time.Duration arithmetic helpers
	durDiv := func(c int64) extern {
		return func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
			return x.tb.BVBin("bvsdiv", args[0].(*Term), x.c64(c))
		}
	}
	ext("(time.Duration).Nanoseconds", "nanosecond count", id)
	ext("(time.Duration).Milliseconds", "truncated division", durDiv(1e6))
	ext("(time.Duration).Microseconds", "truncated division", durDiv(1e3))
	// reflect
	ext("reflect.ValueOf", "reflection handle of the value", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		v := args[0].(IfaceVal)
		if v.term == nil {
			x.unsupported("reflection on a concrete value")
		}
		return OpaqueVal{x.tb.App("rv", SRef, v.term), fn.Signature.Results().At(0).Type()}
	})
	rvArg := func(x *X, v Value) *Term {
		o, ok := v.(OpaqueVal)
		if !ok || o.t.op != "app" || o.t.name != "rv" {
			x.unsupported("reflection on a derived value")
		}
		return o.t.args[0]
	}
	ext("(reflect.Value).Kind", "kind of the dynamic type", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.rkind(rvArg(x, args[0]))
	})
	ext("(reflect.Value).IsNil", "nil test of a pointer", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		v := rvArg(x, args[0])
		x.oblige("reflect.Value.IsNil on a nillable kind "+x.pos2(in), x.tb.Eq(x.rkind(v), x.c64(kindPtr)))
		return x.rnil(v)
	})
	ext("(reflect.Value).Elem", "pointee of a non-nil pointer", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		v := rvArg(x, args[0])
		x.oblige("reflect.Value.Elem on a non-nil pointer "+x.pos2(in), x.tb.And(x.tb.Eq(x.rkind(v), x.c64(kindPtr)), x.tb.Not(x.rnil(v))))
		return OpaqueVal{x.tb.App("relem", SRef, v), fn.Signature.Results().At(0).Type()}
	})
	ext("reflect.Indirect", "pointee of a non-nil pointer", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		v := rvArg(x, args[0])
		if x.branch(x.tb.Eq(x.rkind(v), x.c64(kindPtr))) {
			if x.branch(x.rnil(v)) {
				x.unsupported("reflect.Indirect of nil")
			}
			return OpaqueVal{x.tb.App("relem", SRef, v), fn.Signature.Results().At(0).Type()}
		}
		return args[0]
	})
	ext("(reflect.Value).Interface", "the value as an interface", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		o := args[0].(OpaqueVal)
		if o.t.op == "app" && o.t.name == "rv" {
			return IfaceVal{term: o.t.args[0]}
		}
		if o.t.op == "app" && o.t.name == "relem" {
			return IfaceVal{term: x.tb.App("iface_deref", SIface, o.t.args[0])}
		}
		x.unsupported("reflect.Value.Interface")
		return nil
	})
	// numbers by reflection: the dynamic type must be known by then
	rnum := func(want string, kinds ...types.BasicKind) extern {
		return func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
			v := rvArg(x, args[0])
			for _, k := range kinds {
				t := types.Typ[k]
				if x.decide(x.tb.Eq(x.dyn(v), x.tid(t))) != 1 {
					continue
				}
				p := x.payload(v, t)
				if n, ok := p.(*Term); ok && n.sort.K == KBV {
					_, signed, _ := intInfo(t)
					return x.tb.Conv(n, 64, signed)
				}
				return p
			}
			x.unsupported("reflect.Value.%s of a value of unknown type", want)
			return nil
		}
	}
	ext("(reflect.Value).Int", "the number", rnum("Int", types.Int, types.Int8, types.Int16, types.Int32, types.Int64))
	ext("(reflect.Value).Uint", "the number", rnum("Uint", types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64))
	ext("(reflect.Value).Bool", "the truth value", rnum("Bool", types.Bool))
	ext("(reflect.Kind).String", "some string", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.symVal(types.Typ[types.String], "kind")
	})
}

const kindPtr = 22

func init() {
	extraAxiom["rkind"] = func(x *X, t *Term) []*Term {
		tb := x.tb
		d := t.args[0]
		not := []*Term{tb.Eq(d, tb.BV(32, 0))}
		x.eng.mu.Lock()
		ts := append([]types.Type(nil), x.eng.typeByID...)
		x.eng.mu.Unlock()
		for i, ty := range ts {
			if i >= x.eng.baseTypes() {
				break
			}
			if _, p := ty.Underlying().(*types.Pointer); !p {
				not = append(not, tb.Eq(d, tb.BV(32, uint64(i+1))))
			}
		}
		return []*Term{tb.Implies(tb.Or(not...), tb.Ne(t, x.c64(kindPtr)))}
	}
}

func (x *X) rkind(v *Term) *Term { return x.tb.App("rkind", SBV(64), x.dyn(v)) }
func (x *X) rnil(v *Term) *Term  { return x.tb.App("rnil", SBool, v) }

// wraps records that e wraps the error among the variadic arguments of fmt.Errorf.
func (x *X) wraps(e IfaceVal, va Value) {
	s, ok := va.(SliceVal)
	if !ok || s.obj == nil {
		return
	}
	var all []IfaceVal
	known := true
	defer func() {
		if known {
			x.setWraps(e, all)
		}
	}()
	for _, sg := range x.subElems(s.obj, s.off, s.n) {
		if sg.n != nil {
			known = false
		}
		if sg.n == nil {
			if iv, ok := sg.one.(IfaceVal); ok {
				all = append(all, iv)
			}
			if iv, ok := sg.one.(IfaceVal); ok && iv.term != nil {
				x.assume(x.tb.Implies(x.tb.App("is_error", SBool, iv.term), x.tb.Eq(x.tb.App("err_root", SIface, e.term), x.tb.App("err_root", SIface, iv.term))))
				x.ghostEv("wrap", e.term, iv.term)
			}
		}
	}
}

// sprintf handles formats made of %d with non-negative numbers and %s, %v with strings.
func (x *X) sprint(args []Value, _ bool) (StrVal, bool) {
	va, ok := args[0].(SliceVal)
	if !ok {
		return StrVal{}, false
	}
	var r []Piece
	wasNum := false
	for _, sg := range x.subElems(va.obj, va.off, va.n) {
		iv, ok := sg.one.(IfaceVal)
		if sg.n != nil || !ok || iv.typ == nil {
			return StrVal{}, false
		}
		if _, named := iv.typ.(*types.Named); named {
			return StrVal{}, false
		}
		if w, signed, isInt := intInfo(iv.typ); isInt {
			t := iv.val.(*Term)
			if signed && x.decide(x.tb.Not(x.tb.Slt(t, x.tb.BV(w, 0)))) != 1 {
				return StrVal{}, false
			}
			if wasNum {
				r = append(r, x.lit(" ")...)
			}
			wasNum = true
			r = append(r, x.dec(t)...)
			continue
		}
		sv, ok := iv.val.(StrVal)
		if !ok {
			return StrVal{}, false
		}
		wasNum = false
		r = append(r, x.content(sv)...)
	}
	return StrVal{seq: &RopeSeq{r}, n: x.ropeLen(r)}, true
}

func (x *X) sprintf(args []Value) (StrVal, bool) {
	f, ok := args[0].(StrVal)
	if !ok {
		return StrVal{}, false
	}
	c, ok := f.seq.(*ConstSeq)
	va, ok2 := args[1].(SliceVal)
	if !ok || !ok2 {
		return StrVal{}, false
	}
	var vs []IfaceVal
	for _, sg := range x.subElems(va.obj, va.off, va.n) {
		iv, ok := sg.one.(IfaceVal)
		if sg.n != nil || !ok || iv.typ == nil {
			return StrVal{}, false
		}
		vs = append(vs, iv)
	}
	var r []Piece
	s := c.s
	for s != "" {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			r = append(r, x.lit(s)...)
			break
		}
		r = append(r, x.lit(s[:i])...)
		if i+1 >= len(s) {
			return StrVal{}, false
		}
		verb := s[i+1]
		s = s[i+2:]
		if verb == '%' {
			r = append(r, x.lit("%")...)
			continue
		}
		if len(vs) == 0 {
			return StrVal{}, false
		}
		v := vs[0]
		vs = vs[1:]
		w, signed, isInt := intInfo(v.typ)
		_, named := v.typ.(*types.Named)
		switch {
		case verb == 'd' && isInt, verb == 'v' && isInt && !named:
			t := v.val.(*Term)
			if signed && x.decide(x.tb.Not(x.tb.Slt(t, x.tb.BV(w, 0)))) != 1 {
				return StrVal{}, false
			}
			r = append(r, x.dec(t)...)
		case (verb == 's' || verb == 'v') && !named:
			sv, ok := v.val.(StrVal)
			if !ok {
				return StrVal{}, false
			}
			r = append(r, x.content(sv)...)
		default:
			return StrVal{}, false
		}
	}
	if len(vs) > 0 {
		return StrVal{}, false
	}
	return StrVal{seq: &RopeSeq{r}, n: x.ropeLen(r)}, true
}

func (x *X) ghostEv(kind string, ts ...*Term) {}

func (x *X) event(kind string, args ...Value) {
	if x.onEvent != nil {
		x.onEvent(x, kind, args)
	}
}

func (x *X) floatConst(v constant.Value, is32 bool) *Term {
	f, _ := constant.Float64Val(v)
	if is32 {
		return x.tb.BV(32, uint64(math.Float32bits(float32(f))))
	}
	return x.tb.BV(64, math.Float64bits(f))
}

func (x *X) opaqueLen(o OpaqueVal) Value {
	switch o.typ.Underlying().(type) {
	case *types.Map:
		return x.mapLen(o.t)
	case *types.Chan:
		return x.tb.Fresh("len_chan", SBV(64))
	}
	x.unsupported("len of %s", o.typ)
	return nil
}

func init() {
	extraAxiom["len_map"] = func(x *X, t *Term) []*Term {
		return []*Term{x.tb.Implies(x.tb.Eq(t.args[0], x.tb.Var("nilref", SRef)), x.tb.Eq(t, x.c64(0)))}
	}
}

func (x *X) mapLen(m *Term) *Term { return x.tb.App("len_map", SBV(64), m) }

// ---- maps: iterated in some order, each entry once ----

func (x *X) rangeStart(fr *Frame, i *ssa.Range) Value {
	v := x.eval(fr, i.X)
	o, ok := v.(OpaqueVal)
	if !ok {
		x.unsupported("range over %T", v)
	}
	if _, isMap := o.typ.Underlying().(*types.Map); !isMap {
		x.unsupported("range over %s", o.typ)
	}
	it := x.newObj('s', types.Typ[types.Int], "iterator")
	x.st.vals[it.id] = x.c64(0)
	return IterVal{m: o.t, obj: it}
}

func (x *X) rangeNext(fr *Frame, n *ssa.Next) Value {
	it := x.eval(fr, n.Iter).(IterVal)
	tup := n.Type().(*types.Tuple)
	mt := n.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	k := x.st.vals[it.obj.id].(*Term)
	c := x.tb.Ult(k, x.mapLen(it.m)) // a nil map has length 0
	x.noteMapExit(fr, n.Block())
	if x.branch(c) {
		x.st.vals[it.obj.id] = x.tb.Add(k, x.c64(1))
		return TupleVal{x.tb.True(), x.mapKey(mt, it.m, k), x.mapVal(mt, it.m, k)}
	}
	_ = tup
	return TupleVal{x.tb.False(), x.zero(mt.Key()), x.zero(mt.Elem())}
}

// noteMapExit: the exit test of a map range is never decided by constants.
func (x *X) noteMapExit(fr *Frame, blk *ssa.BasicBlock) {
	for _, L := range fr.info.of[blk] {
		lr := fr.loops[L.header]
		if lr != nil && lr.g != nil && lr.g.mode == lmProbe && L.header == blk {
			lr.g.mode = lmCut
			x.restart()
		}
	}
}

func (x *X) mapKey(mt *types.Map, m, k *Term) Value {
	so := x.sortOf(mt.Key())
	return x.fromTerm(mt.Key(), x.tb.App("mapkey_"+sortTag(so), so, m, k))
}
func (x *X) mapVal(mt *types.Map, m, k *Term) Value {
	so := x.sortOf(mt.Elem())
	return x.fromTerm(mt.Elem(), x.tb.App("mapval_"+sortTag(so), so, m, k))
}

func (x *X) mapLookup(m, k Value, in *ssa.Lookup) Value {
	if cm, ok := m.(ConstMap); ok {
		kt, ok := k.(*Term)
		if !ok {
			x.unsupported("lookup in a constant map")
		}
		mt := in.X.Type().Underlying().(*types.Map)
		n := x.choose(len(cm.keys) + 1)
		if n < len(cm.keys) {
			x.assume(x.tb.Eq(kt, cm.keys[n]))
			if in.CommaOk {
				return TupleVal{cm.vals[n], x.tb.True()}
			}
			return cm.vals[n]
		}
		for _, c := range cm.keys {
			x.assume(x.tb.Ne(kt, c))
		}
		if in.CommaOk {
			return TupleVal{x.zero(mt.Elem()), x.tb.False()}
		}
		return x.zero(mt.Elem())
	}
	if o, ok := m.(OpaqueVal); ok {
		// a key met in a range over the same map
		if t := elemTerm(k); t != nil && t.op == "app" && strings.HasPrefix(t.name, "mapkey_") && t.args[0] == o.t {
			v := x.mapVal(o.typ.Underlying().(*types.Map), o.t, t.args[1])
			if in.CommaOk {
				return TupleVal{v, x.tb.True()}
			}
			return v
		}
	}
	x.unsupported("map lookup")
	return nil
}

// ConstMap is a package-level map that is only filled by the package initialiser.
type ConstMap struct {
	keys []*Term
	vals []Value
}

// ---- globals ----

func (x *X) global(g *ssa.Global) Value {
	if o := x.globals[g]; o != nil {
		return PtrVal{obj: o, typ: o.typ}
	}
	el := g.Type().Underlying().(*types.Pointer).Elem()
	o := x.newObj('s', el, g.Name())
	o.fresh = false
	x.globals[g] = o
	x.st.vals[o.id] = x.globalInit(g, el)
	if x.entry != nil {
		x.entry.vals[o.id] = x.st.vals[o.id]
	}
	return PtrVal{obj: o, typ: el}
}

func (x *X) globalInit(g *ssa.Global, el types.Type) Value {
	name := "global_" + g.RelString(nil)
	sym := func() Value {
		v := x.fromTerm(el, x.tb.Var(name, x.sortOf(el)))
		if _, ok := el.Underlying().(*types.Interface); ok {
			x.assume(x.tb.Not(x.isNil(v)))
		}
		return v
	}
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPrefix) {
		return sym()
	}
	if x.eng.writtenOutsideInit(g) {
		return sym()
	}
	init := g.Pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return sym()
	}
	var cur Value
	if a, ok := el.Underlying().(*types.Array); ok && a.Len() <= 64 && !isByteType(a.Elem()) {
		cur = x.zero(el)
	}
	var mk *ssa.MakeMap
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if st.Addr == g {
				switch v := st.Val.(type) {
				case *ssa.Const:
					cur = x.constVal(v)
				case *ssa.MakeMap:
					mk = v
				case *ssa.UnOp: // a literal built in a temporary
					a, ok := v.X.(*ssa.Alloc)
					if v.Op != token.MUL || !ok || cur == nil {
						return sym()
					}
					for _, r := range *a.Referrers() {
						switch r := r.(type) {
						case *ssa.IndexAddr:
							i, ok := r.Index.(*ssa.Const)
							if !ok {
								return sym()
							}
							for _, q := range *r.Referrers() {
								s, ok := q.(*ssa.Store)
								if !ok {
									return sym()
								}
								cv, ok := s.Val.(*ssa.Const)
								if !ok {
									return sym()
								}
								cur = x.setPath(cur, []int{int(i.Int64())}, x.constVal(cv))
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							return sym()
						}
					}
				default:
					return sym()
				}
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia.X == g {
				i, ok1 := ia.Index.(*ssa.Const)
				v, ok2 := st.Val.(*ssa.Const)
				if !ok1 || !ok2 || cur == nil {
					return sym()
				}
				cur = x.setPath(cur, []int{int(i.Int64())}, x.constVal(v))
			}
		}
	}
	if mk != nil {
		var cm ConstMap
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || mu.Map != mk {
					continue
				}
				k, ok1 := mu.Key.(*ssa.Const)
				if !ok1 {
					x.unsupported("map initialiser of %s", g.Name())
				}
				var v Value
				switch s := mu.Value.(type) {
				case *ssa.Const:
					v = x.constVal(s)
				case *ssa.Slice:
					c, ok := s.X.(*ssa.Const)
					if !ok {
						x.unsupported("map initialiser of %s", g.Name())
					}
					str := constant.StringVal(c.Value)
					lo, hi := int64(0), int64(len(str))
					if s.Low != nil {
						lo = s.Low.(*ssa.Const).Int64()
					}
					if s.High != nil {
						hi = s.High.(*ssa.Const).Int64()
					}
					v = x.str(str[lo:hi])
				default:
					x.unsupported("map initialiser of %s", g.Name())
				}
				cm.keys = append(cm.keys, x.constVal(k).(*Term))
				cm.vals = append(cm.vals, v)
			}
		}
		return cm
	}
	if cur != nil {
		return cur
	}
	return sym()
}

// writtenOutsideInit: some function of the module other than init stores to the global directly.
func (e *Engine) writtenOutsideInit(g *ssa.Global) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.gw == nil {
		e.gw = map[*ssa.Global]bool{}
		for fn := range e.allFns {
			if fn.Name() == "init" && fn.Synthetic != "" || fn.Blocks == nil || !inRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var ad ssa.Value
					switch s := in.(type) {
					case *ssa.Store:
						ad = s.Addr
					case *ssa.MapUpdate:
						ad = s.Map
					}
					for ad != nil {
						switch a := ad.(type) {
						case *ssa.IndexAddr:
							ad = a.X
						case *ssa.FieldAddr:
							ad = a.X
						case *ssa.UnOp:
							ad = a.X
						case *ssa.Global:
							e.gw[a] = true
							ad = nil
						default:
							ad = nil
						}
					}
				}
			}
		}
	}
	return e.gw[g]
}
