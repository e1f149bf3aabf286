package main

// Calls: builtins, contracts, externs, inlining.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *X) callee(fr *Frame, cc *ssa.CallCommon, in ssa.Instruction) (Value, []Value) {
	f := x.eval(fr, cc.Value)
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.eval(fr, a))
	}
	return f, args
}

func (x *X) callValue(f Value, args []Value, cc *ssa.CallCommon, in ssa.Instruction) Value {
	if cc.IsInvoke() {
		return x.invoke(f.(IfaceVal), args, cc, in)
	}
	fv, ok := f.(FuncVal)
	if !ok {
		x.unsupported("call of %T", f)
	}
	if fv.blt != nil {
		return x.builtin(fv.blt.Name(), args, cc, in)
	}
	return x.callFunc(fv, args, in)
}

func (x *X) callFunc(fv FuncVal, args []Value, in ssa.Instruction) Value {
	if fv.fn == nil {
		if fv.term == nil {
			x.oblige("call of nil function "+x.pos2(in), x.tb.False())
			panic(abortPath{"nil func"})
		}
		return x.callSym(fv, args, in)
	}
	fn := fv.fn
	if fn.Origin() != nil {
		// instantiated generics are inlined like any function
	}
	k := fnKey(fn)
	if con := x.contractFor(k, fn); con != nil {
		return x.apply(con, fn, fn.Signature, args, in)
	}
	if h := externs[k]; h != nil {
		x.externs[k] = true
		return h(x, fn, args, in)
	}
	if fn.Blocks != nil && (inRepo(fn) || inlineStd(k)) {
		x.inlined[k] = true
		return x.execFunc(fn, args, fv.bind)
	}
	x.unsupported("call of external function %s without a contract %s", k, x.pos2(in))
	return nil
}

func (x *X) contractFor(k string, fn *ssa.Function) *Contract {
	if x.con != nil && x.con.Local != nil {
		if c := x.con.Local[k]; c != nil {
			return c
		}
	}
	if x.con != nil {
		for _, n := range x.con.Inline {
			if n == k {
				return nil
			}
		}
	}
	con := x.eng.contracts[k]
	if con == nil || con.Spec == nil || con.Only || con == x.con && fn == x.fn && len(x.stack) == 0 {
		return nil
	}
	x.eng.mu.Lock()
	b := x.eng.broken[k]
	x.eng.mu.Unlock()
	if b {
		return nil
	}
	return con
}

func inlineStd(k string) bool {
	switch k {
	case "encoding/binary.PutUvarint", "encoding/binary.AppendUvarint", "encoding/hex.Encode", "encoding/hex.EncodedLen", "encoding/hex.EncodeToString", "encoding/hex.AppendEncode",
		"(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.littleEndian).AppendUint64",
		"(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint64",
		"(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).AppendUint64", "(encoding/binary.bigEndian).AppendUint32":
		return true
	}
	return false
}

func (x *X) invoke(recv IfaceVal, args []Value, cc *ssa.CallCommon, in ssa.Instruction) Value {
	if recv.isNilConst() {
		x.oblige("method call on nil interface "+x.pos2(in), x.tb.False())
		panic(abortPath{"nil interface"})
	}
	if recv.term == nil {
		m := x.eng.prog.LookupMethod(recv.typ, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			x.unsupported("method %s of %s", cc.Method.Name(), recv.typ)
		}
		return x.callFunc(FuncVal{fn: m}, append([]Value{recv.val}, args...), in)
	}
	k := "iface:" + shortPath(types.TypeString(cc.Value.Type(), nil)) + "." + cc.Method.Name()
	con := x.contractFor(k, nil)
	if h := externs[k]; h != nil && con == nil {
		x.externs[k] = true
		return h(x, nil, append([]Value{recv}, args...), in)
	}
	if con == nil {
		x.unsupported("no contract for interface method %s", k)
	}
	x.oblige("method call on nil interface "+x.pos2(in), x.tb.Not(x.isNil(recv)))
	return x.apply(con, nil, cc.Method.Type().(*types.Signature), append([]Value{recv}, args...), in)
}

// callSym calls a function only known as a term, by the contract of its type.
func (x *X) callSym(fv FuncVal, args []Value, in ssa.Instruction) Value {
	sig := fv.typ.Underlying().(*types.Signature)
	k := "func:" + shortPath(types.TypeString(sigNoNames(sig), nil))
	con := x.contractFor(k, nil)
	if con == nil {
		x.unsupported("no contract for function type %s", k)
	}
	x.oblige("call of nil function "+x.pos2(in), x.tb.Not(x.isNil(fv)))
	return x.apply(con, nil, sig, append([]Value{fv}, args...), in)
}

func sigNoNames(s *types.Signature) *types.Signature {
	strip := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic())
}

// apply uses a contract at a call site.
func (x *X) apply(con *Contract, fn *ssa.Function, sig *types.Signature, args []Value, in ssa.Instruction) Value {
	x.used[con.Key] = true
	c := &Ctx{x: x, args: args, fn: fn, sig: sig, call: true}
	if con.Pre != nil {
		for i, p := range con.Pre(c) {
			x.oblige("precondition "+con.Key+" #"+itoa(i+1)+" at "+x.pos2(in), p)
		}
	}
	if con.AtCall != nil {
		con.AtCall(x, args)
	}
	cases := con.Spec(c)
	for _, cs := range cases {
		if cs.G != nil && !x.branch(cs.G) {
			continue
		}
		if cs.Panic {
			panic(targetPanic{x.str("panic in " + con.Key)})
		}
		for _, r := range x.regions(con, c) {
			x.clobber(r, con.Key)
		}
		var res []Value
		for i, r := range cs.Res {
			res = append(res, x.makeR(r, sig.Results().At(i).Type(), con.Key, args))
		}
		for _, m := range cs.Mem {
			nv := x.makeR(m.R, m.P.typ, con.Key, args)
			x.store(m.P, nv, con.Key)
		}
		if cs.Eff != nil {
			cs.Eff(x)
		}
		if cs.Facts != nil {
			cs.Facts(x, res)
		}
		switch len(res) {
		case 0:
			return nil
		case 1:
			return res[0]
		}
		return TupleVal(res)
	}
	panic(abortPath{"no case of " + con.Key})
}

// regions: declared write regions (only used when the contract states them explicitly).
func (x *X) regions(con *Contract, c *Ctx) []Region {
	if con.Writes == nil || con.EffOnly {
		return nil
	}
	return con.Writes(c)
}

// clobber forgets the content of a region at a call site.
func (x *X) clobber(r Region, who string) {
	if r.S.obj == nil {
		return
	}
	if r.To == nil {
		n := x.tb.BVBig(64, new2(46))
		if g := x.guards[r.S.obj.fam]; g != nil || !r.S.obj.fresh {
			// the callee may write from From on: it must be allowed here too
			n = x.tb.Sub(r.S.cap, r.From)
		}
		x.writeBytes(r.S.obj, x.tb.Add(r.S.off, r.From), n, x.symSeq("clob"), "call of "+who)
		return
	}
	x.writeBytes(r.S.obj, x.tb.Add(r.S.off, r.From), x.tb.Sub(r.To, r.From), x.symSeq("clob"), "call of "+who)
}

func (x *X) makeR(r RSpec, t types.Type, who string, args []Value) Value {
	switch r := r.(type) {
	case RApp:
		// other byte slices of the same family passed along must not lie in the spare capacity
		for _, a := range args {
			if s, ok := a.(SliceVal); ok && s.obj != nil && r.Base.obj != nil && s.obj.kind == 'b' && s.obj.fam == r.Base.obj.fam && s != r.Base {
				x.oblige("argument of "+who+" does not overlap the buffer's spare capacity",
					x.tb.Or(x.tb.Ule(x.tb.Add(s.off, s.n), x.tb.Add(r.Base.off, r.Base.n)), x.tb.Eq(s.n, x.c64(0))))
			}
		}
		return x.appendLike(r.Base, r.Rope, who)
	case RTile:
		return x.makeTile(r, who)
	case RKeep:
		n := x.tb.Fresh("more", SBV(64))
		x.assume(x.tb.Ule(x.c64(r.Min), n))
		x.boundLen(n, 40)
		return x.appendLike(r.Base, []Piece{{seq: x.symSeq("more"), n: n, lab: "more"}}, who)
	case RVal:
		return r.V
	case RStr:
		return StrVal{seq: &RopeSeq{r.Rope}, n: x.ropeLen(r.Rope)}
	case RBuf:
		o := x.newObj('b', t, "buf")
		x.st.bytes[o.id] = &RopeSeq{r.Rope}
		n := x.ropeLen(r.Rope)
		cp := x.tb.Fresh("cap", SBV(64))
		x.assume(x.tb.Ule(n, cp))
		x.boundLen(cp, 46)
		return SliceVal{obj: o, off: x.c64(0), n: n, cap: cp, isnil: x.tb.False(), elem: types.Typ[types.Uint8]}
	case RErr:
		e := IfaceVal{term: x.tb.Fresh("err", SIface)}
		x.assume(x.tb.Not(x.isNil(e)))
		return e
	case RNoErr:
		return IfaceVal{}
	case RAny:
		return x.symRes(t, "any")
	case RSym:
		v := x.symRes(t, "res")
		for _, f := range r.F(x, v) {
			x.assume(f)
		}
		return v
	case RFn:
		if r.Apply != nil {
			return r.Apply(x)
		}
		return x.symVal(t, "fn")
	}
	x.unsupported("result spec %T", r)
	return nil
}

// symRes is an arbitrary result; byte slices returned on failure are arbitrary fresh ones.
func (x *X) symRes(t types.Type, hint string) Value {
	v := x.symVal(t, hint)
	if s, ok := v.(SliceVal); ok && s.obj != nil {
		s.obj.fresh = true
	}
	return v
}

// appendLike is the effect of appending rope to base when it is not known whether it grew in place.
func (x *X) appendLike(base SliceVal, rope []Piece, who string) SliceVal {
	tb := x.tb
	n := x.ropeLen(rope)
	newLen := tb.Add(base.n, n)
	cp := tb.Fresh("cap", SBV(64))
	x.assume(tb.Ule(newLen, cp))
	x.boundLen(cp, 46)
	isnil := tb.And(base.isnil, tb.Eq(n, x.c64(0)))
	junk := Piece{seq: x.symSeq("junk"), n: tb.BVBig(64, new2(62))}
	if base.obj == nil {
		o := x.newObj('b', types.NewSlice(types.Typ[types.Uint8]), "app")
		x.st.bytes[o.id] = &RopeSeq{append(append([]Piece(nil), rope...), junk)}
		return SliceVal{obj: o, off: x.c64(0), n: newLen, cap: cp, isnil: isnil, elem: types.Typ[types.Uint8]}
	}
	end := tb.Add(base.off, base.n)
	x.checkGuard(base.obj, end, n, "call of "+who)
	o := x.derivedObj(base.obj)
	x.st.bytes[o.id] = &LogSeq{x.st.bytes[base.obj.id], end, tb.BVBig(64, new2(62)), &RopeSeq{append(append([]Piece(nil), rope...), junk)}}
	x.havocOthers(o, end, tb.BVBig(64, new2(62)))
	return SliceVal{obj: o, off: base.off, n: newLen, cap: cp, isnil: isnil, elem: types.Typ[types.Uint8]}
}

func (x *X) checkGuard(o *Obj, off, n *Term, what string) {
	if gs := x.guards[o.fam]; gs != nil {
		var cs []*Term
		for _, g := range gs {
			cs = append(cs, g(x, off, n))
		}
		x.oblige("frame: "+what+" writes only where allowed in "+o.name, x.tb.Or(cs...))
	} else if !o.fresh {
		x.oblige("frame: "+what+" writes to "+o.name+", which is not in the modifies clause", x.tb.Eq(n, x.c64(0)))
	}
}

// ---- builtins ----

func (x *X) builtin(name string, args []Value, cc *ssa.CallCommon, in ssa.Instruction) Value {
	tb := x.tb
	switch name {
	case "len":
		switch s := args[0].(type) {
		case SliceVal:
			return s.n
		case StrVal:
			return s.n
		case OpaqueVal:
			return x.opaqueLen(s)
		case BArrVal:
			return x.c64(s.n)
		case ArrVal:
			return x.c64(int64(len(s.elems)))
		}
	case "cap":
		switch s := args[0].(type) {
		case SliceVal:
			return s.cap
		case OpaqueVal:
			return tb.App("cap_chan", SBV(64), s.t)
		}
	case "append":
		s := args[0].(SliceVal)
		if !isByteType(s.elem) {
			return x.appendElems(s, args[1].(SliceVal))
		}
		seq, n := x.source(args[1])
		return x.appendBytes(s, seq, n, x.pos2(in))
	case "copy":
		d := args[0].(SliceVal)
		if !isByteType(d.elem) {
			return x.copyElems(d, args[1].(SliceVal))
		}
		seq, n := x.source(args[1])
		var m *Term
		if x.branch(tb.Ule(n, d.n)) {
			m = n
		} else {
			m = d.n
		}
		if d.obj != nil {
			x.writeBytes(d.obj, d.off, m, seq, "copy "+x.pos2(in))
		}
		return m
	case "close":
		x.chanClose(args[0], in)
		return nil
	case "min", "max":
		_, signed, ok := intInfo(cc.Args[0].Type())
		if ok {
			r := args[0].(*Term)
			for _, a := range args[1:] {
				b := a.(*Term)
				lt := tb.Ult(r, b)
				if signed {
					lt = tb.Slt(r, b)
				}
				if name == "max" {
					lt = tb.Not(lt)
				}
				r = tb.Ite(lt, r, b)
			}
			return r
		}
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		if s, ok := args[0].(SliceVal); ok && isByteType(s.elem) && s.obj != nil {
			x.writeBytes(s.obj, s.off, s.n, ZeroSeq{}, "clear "+x.pos2(in))
			return nil
		}
	case "print", "println":
		return nil
	}
	x.unsupported("builtin %s %s", name, x.pos2(in))
	return nil
}

// source is a snapshot of the bytes of a slice or string.
func (x *X) source(v Value) (Seq, *Term) {
	switch s := v.(type) {
	case StrVal:
		return s.seq, s.n
	case SliceVal:
		sq := x.sliceSeq(s)
		if s.n.IsConst() && s.n.val.IsInt64() && s.n.val.Int64() <= 64 {
			var bs []*Term
			for i := int64(0); i < s.n.val.Int64(); i++ {
				bs = append(bs, sq.At(x, x.c64(i)))
			}
			return &BytesSeq{bs}, s.n
		}
		return sq, s.n
	}
	x.unsupported("byte source %T", v)
	return nil, nil
}

func (x *X) appendBytes(s SliceVal, src Seq, n *Term, pos string) SliceVal {
	tb := x.tb
	if n.IsConst() && n.val.Sign() == 0 {
		return s
	}
	newLen := tb.Add(s.n, n)
	isnil := tb.And(s.isnil, tb.Eq(n, x.c64(0)))
	fits := -1
	if s.obj != nil {
		fits = x.decide(tb.Ule(newLen, s.cap))
	}
	if fits == 1 {
		x.writeBytes(s.obj, tb.Add(s.off, s.n), n, src, "append "+pos)
		return SliceVal{obj: s.obj, off: s.off, n: newLen, cap: s.cap, isnil: isnil, elem: s.elem}
	}
	cp := tb.Fresh("cap", SBV(64))
	x.assume(tb.Ule(newLen, cp))
	x.boundLen(cp, 46)
	if fits == -1 {
		o := x.newObj('b', types.NewSlice(s.elem), "grown")
		x.st.bytes[o.id] = &LogSeq{x.sliceSeq(s), s.n, n, src}
		return SliceVal{obj: o, off: x.c64(0), n: newLen, cap: cp, isnil: isnil, elem: s.elem}
	}
	end := tb.Add(s.off, s.n)
	x.checkGuard(s.obj, end, n, "append "+pos)
	o := x.derivedObj(s.obj)
	x.st.bytes[o.id] = &LogSeq{x.st.bytes[s.obj.id], end, n, src}
	x.havocOthers(o, end, n)
	return SliceVal{obj: o, off: s.off, n: newLen, cap: cp, isnil: isnil, elem: s.elem}
}

func (x *X) appendElems(s, t SliceVal) SliceVal {
	tb := x.tb
	a := x.subElems(s.obj, s.off, s.n)
	b := x.subElems(t.obj, t.off, t.n)
	newLen := tb.Add(s.n, t.n)
	if s.obj != nil && !s.obj.fresh && x.con != nil && (strings.HasPrefix(x.con.Key, "xtorm.") || strings.HasPrefix(x.con.Key, "xproto.")) {
		// the list belongs to the caller
		if x.decide(tb.Or(tb.Eq(t.n, x.c64(0)), tb.Ult(s.cap, newLen))) != 1 {
			x.oblige("frame: append to the spare room of "+s.obj.name, tb.Or(tb.Eq(t.n, x.c64(0)), tb.Ult(s.cap, newLen)))
		}
	}
	cp := tb.Fresh("cap", SBV(64))
	x.assume(tb.Ule(newLen, cp))
	x.boundLen(cp, 46)
	o := x.newObj('e', types.NewSlice(s.elem), "grown")
	segs := append(append([]ESeg(nil), a...), b...)
	segs = append(segs, ESeg{zero: true, n: tb.Sub(cp, newLen), from: x.c64(0)})
	x.st.elems[o.id] = &ERope{segs}
	return SliceVal{obj: o, off: x.c64(0), n: newLen, cap: cp, isnil: tb.And(s.isnil, tb.Eq(t.n, x.c64(0))), elem: s.elem}
}

func (x *X) copyElems(d, s SliceVal) Value {
	tb := x.tb
	var m *Term
	if x.branch(tb.Ule(s.n, d.n)) {
		m = s.n
	} else {
		m = d.n
	}
	if d.obj == nil || m.IsConst() && m.val.Sign() == 0 {
		return m
	}
	if !d.obj.fresh {
		x.oblige("frame: copy to elements of "+d.obj.name, tb.False())
	}
	segs := x.subElems(s.obj, s.off, m)
	x.st.elems[d.obj.id] = &ERope{x.spliceElems(x.st.elems[d.obj.id].segs, d.off, segs)}
	return m
}
