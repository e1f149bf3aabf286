package main

// Symbolic execution of go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct{ v Value }

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []func()
	loops  map[*ssa.BasicBlock]*LoopRun
	info   *LoopInfo
	probe  *Probe
	args   []Value
}

const modPrefix = "github.com/renthraysk/xtorm"

func shortPath(s string) string {
	s = strings.ReplaceAll(s, modPrefix+"/", "")
	s = strings.ReplaceAll(s, modPrefix+".", "xtorm.")
	return s
}

func fnKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	k := shortPath(fn.RelString(nil))
	if rec := fn.Signature.Recv(); rec != nil && len(typeAlias) > 0 && fn.Synthetic == "" {
		t, ptr := rec.Type(), ""
		if p, ok := t.(*types.Pointer); ok {
			t, ptr = p.Elem(), "*"
		}
		if n, ok := t.(*types.Named); ok {
			if a, ok := typeAlias[n.Obj()]; ok {
				if st, ok := n.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
					ptr = "" // without fields it makes no difference whether the receiver is a pointer
				}
				return "(" + ptr + a + ")." + fn.Name()
			}
		}
	}
	return k
}

// typeAlias: the names under which contracts know types that callers can only reach through a
// constructor, whatever they are called in the source.
var typeAlias = map[*types.TypeName]string{}

var constructed = []struct{ path, fn, name string }{
	{modPrefix + "/netx/connection", "New", "conn"},
	{modPrefix + "/netx/pool/fifoch", "New", "poolCh"},
	{modPrefix + "/netx/connector/authentication/mysql41", "New", "auth"},
	{modPrefix + "/netx/connector/authentication/sha256", "New", "auth"},
	{modPrefix + "/netx/connector/authentication/plain", "New", "auth"},
	{modPrefix, "XML", "xml"},
	{modPrefix, "XMLString", "xmlString"},
	{modPrefix, "JSON", "json"},
	{modPrefix, "JSONString", "jsonString"},
	{modPrefix, "Geometry", "geometry"},
}

func (e *Engine) aliasTypes() {
	for _, c := range constructed {
		p := e.findPkg(c.path)
		if p == nil {
			continue
		}
		f, ok := p.Scope().Lookup(c.fn).(*types.Func)
		if !ok || f.Type().(*types.Signature).Results().Len() == 0 {
			continue
		}
		t := f.Type().(*types.Signature).Results().At(0).Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == p && !n.Obj().Exported() {
			typeAlias[n.Obj()] = shortPath(c.path + "." + c.name)
		}
	}
}

func inRepo(fn *ssa.Function) bool {
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg == nil {
		if o := p.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPrefix)
		}
		return p.Synthetic != ""
	}
	return strings.HasPrefix(p.Pkg.Pkg.Path(), modPrefix)
}

// ---- types ----

func isOpaqueNamed(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	_, isS := n.Underlying().(*types.Struct)
	return isS && !strings.HasPrefix(n.Obj().Pkg().Path(), modPrefix)
}

func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (x *X) sortOf(t types.Type) Sort {
	if w, _, ok := intInfo(t); ok {
		return SBV(w)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Float64:
			return SBV(64)
		case u.Kind() == types.Float32:
			return SBV(32)
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		}
	case *types.Slice:
		if isByteType(u.Elem()) {
			return SBytes
		}
		return SVec
	case *types.Interface:
		return SIface
	case *types.Signature:
		return SFunc
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Struct:
		if isOpaqueNamed(t) {
			return SRef
		}
	}
	x.unsupported("no sort for type %s", t)
	return Sort{}
}

func sortTag(s Sort) string {
	switch s.K {
	case KBV:
		return fmt.Sprintf("bv%d", s.W)
	case KBool:
		return "bool"
	case KInt:
		return "int"
	}
	return strings.ToLower(s.Name)
}

func (x *X) zero(t types.Type) Value {
	if w, _, ok := intInfo(t); ok {
		return x.tb.BV(w, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Float64:
			return x.tb.BV(64, 0)
		case u.Kind() == types.Float32:
			return x.tb.BV(32, 0)
		case u.Info()&types.IsBoolean != 0:
			return x.tb.False()
		case u.Info()&types.IsString != 0:
			return x.str("")
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Slice:
		return x.nilSlice(u.Elem())
	case *types.Interface:
		return IfaceVal{}
	case *types.Signature:
		return FuncVal{typ: t}
	case *types.Pointer:
		return PtrVal{typ: u.Elem()}
	case *types.Map, *types.Chan:
		return OpaqueVal{x.tb.Var("nilref", SRef), t}
	case *types.Struct:
		if isOpaqueNamed(t) {
			return OpaqueVal{x.tb.Var("zero_"+typeName(t), SRef), t}
		}
		s := StructVal{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isByteType(u.Elem()) {
			return BArrVal{ZeroSeq{}, u.Len()}
		}
		var a ArrVal
		if u.Len() > 64 {
			x.unsupported("array type %s", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			a.elems = append(a.elems, x.zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		var tv TupleVal
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(u.At(i).Type()))
		}
		return tv
	}
	x.unsupported("zero value of %s", t)
	return nil
}

// BArrVal is a byte array as a value.
type BArrVal struct {
	seq Seq
	n   int64
}

func (x *X) str(s string) StrVal { return StrVal{seq: &ConstSeq{s}, n: x.c64(int64(len(s)))} }

func (x *X) nilSlice(elem types.Type) SliceVal {
	z := x.c64(0)
	return SliceVal{off: z, n: z, cap: z, isnil: x.tb.True(), elem: elem}
}

// fromTerm turns a term into the value of Go type t that it denotes.
func (x *X) fromTerm(t types.Type, tm *Term) Value {
	tb := x.tb
	if _, _, ok := intInfo(t); ok {
		return tm
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return StrVal{seq: &SymSeq{"at_str", []*Term{tm}}, n: tb.App("len_str", SBV(64), tm), orig: tm}
		}
		return tm
	case *types.Slice:
		k := fmt.Sprintf("%d/%s", tm.id, sortTag(tm.sort))
		o := x.termObjs[k]
		isb := isByteType(u.Elem())
		n := tb.App("len_"+sortTag(tm.sort), SBV(64), tm)
		isnil := tb.App("nil_"+sortTag(tm.sort), SBool, tm)
		if o == nil {
			kind := byte('e')
			if isb {
				kind = 'b'
			}
			o = x.newObj(kind, t, tm.String())
			o.fresh = false
			x.termObjs[k] = o
			if isb {
				x.st.bytes[o.id] = &SymSeq{"at_bytes", []*Term{tm}}
			} else {
				x.st.elems[o.id] = &ERope{[]ESeg{{vec: tm, from: x.c64(0), n: n}}}
			}
			x.lazyEntry(o)
		}
		x.assume(tb.Ult(n, tb.BVBig(64, new2(40))))
		x.assume(tb.Implies(isnil, tb.Eq(n, x.c64(0))))
		cp := tb.App("cap_"+sortTag(tm.sort), SBV(64), tm)
		x.assume(tb.Ule(n, cp))
		x.assume(tb.Ult(cp, tb.BVBig(64, new2(41))))
		x.assume(tb.Implies(isnil, tb.Eq(cp, x.c64(0))))
		return SliceVal{obj: o, off: x.c64(0), n: n, cap: cp, isnil: isnil, elem: u.Elem(), orig: tm}
	case *types.Interface:
		return IfaceVal{term: tm}
	case *types.Signature:
		return FuncVal{term: tm, typ: t}
	default:
		return OpaqueVal{tm, t}
	}
}

// symVal makes an arbitrary value of type t.
func (x *X) symVal(t types.Type, hint string) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !isOpaqueNamed(t) {
			s := StructVal{typ: t}
			for i := 0; i < u.NumFields(); i++ {
				s.fields = append(s.fields, x.symVal(u.Field(i).Type(), hint+"."+u.Field(i).Name()))
			}
			return s
		}
	case *types.Array:
		if isByteType(u.Elem()) {
			return BArrVal{x.symSeq(hint), u.Len()}
		}
		var a ArrVal
		if u.Len() <= 16 {
			for i := int64(0); i < u.Len(); i++ {
				a.elems = append(a.elems, x.symVal(u.Elem(), fmt.Sprintf("%s[%d]", hint, i)))
			}
			return a
		}
	case *types.Pointer:
		if p, ok := x.symPtr(u, hint); ok {
			return p
		}
	case *types.Tuple:
		var tv TupleVal
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.symVal(u.At(i).Type(), fmt.Sprintf("%s.%d", hint, i)))
		}
		return tv
	}
	return x.fromTerm(t, x.tb.Fresh(hint, x.sortOf(t)))
}

// symPtr: pointers to structs of the repository (or to small arrays) get an object of their own.
func (x *X) symPtr(u *types.Pointer, hint string) (Value, bool) {
	el := u.Elem()
	switch eu := el.Underlying().(type) {
	case *types.Struct:
		if isOpaqueNamed(el) {
			return nil, false
		}
		o := x.newObj('s', el, hint)
		o.fresh = false
		x.st.vals[o.id] = x.symVal(el, hint)
		return PtrVal{obj: o, typ: el}, true
	case *types.Array:
		_ = eu
		o := x.newObj('s', el, hint)
		o.fresh = false
		x.st.vals[o.id] = x.symVal(el, hint)
		return PtrVal{obj: o, typ: el}, true
	}
	return nil, false
}

// ---- dynamic types ----

func (e *Engine) typeID(t types.Type) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := types.TypeString(t, nil)
	if id, ok := e.typeIDs[k]; ok {
		return id
	}
	for i, u := range e.typeByID {
		if types.Identical(t, u) {
			e.typeIDs[k] = i + 1
			return i + 1
		}
	}
	id := len(e.typeByID) + 1
	e.typeIDs[k] = id
	e.typeByID = append(e.typeByID, t)
	return id
}

func (x *X) dyn(tm *Term) *Term { return x.tb.App("dyn", SBV(32), tm) }
func (x *X) tid(t types.Type) *Term {
	return x.tb.BV(32, uint64(x.eng.typeID(t)))
}

func (x *X) isNil(v Value) *Term {
	tb := x.tb
	switch v := v.(type) {
	case nil:
		return tb.True()
	case SliceVal:
		return v.isnil
	case PtrVal:
		return tb.Bool(v.obj == nil)
	case IfaceVal:
		if v.term != nil {
			return tb.Eq(x.dyn(v.term), tb.BV(32, 0))
		}
		return tb.Bool(v.typ == nil)
	case FuncVal:
		if v.term != nil {
			return tb.App("nil_func", SBool, v.term)
		}
		return tb.Bool(v.fn == nil && v.blt == nil)
	case OpaqueVal:
		return tb.Eq(v.t, tb.Var("nilref", SRef))
	}
	x.unsupported("nil test of %T", v)
	return nil
}

// payload of a symbolic interface term known to hold concrete type t.
func (x *X) payload(tm *Term, t types.Type) Value {
	if s, ok := t.Underlying().(*types.Struct); ok && !isOpaqueNamed(t) {
		sv := StructVal{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			so := x.sortOf(ft)
			sv.fields = append(sv.fields, x.fromTerm(ft, x.tb.App("pl_"+typeName(t)+"."+s.Field(i).Name(), so, tm)))
		}
		return sv
	}
	so := x.sortOf(t)
	return x.fromTerm(t, x.tb.App("pl_"+typeName(t), so, tm))
}

// implements builds the condition that the dynamic type of tm implements it.
func (x *X) implements(tm *Term, it types.Type) *Term {
	iface := it.Underlying().(*types.Interface)
	d := x.dyn(tm)
	if iface.NumMethods() == 0 {
		return x.tb.Ne(d, x.tb.BV(32, 0))
	}
	r := x.tb.App("impl_"+typeName(it), SBool, d)
	x.assume(x.tb.Implies(r, x.tb.Ne(d, x.tb.BV(32, 0))))
	x.eng.mu.Lock()
	ts := append([]types.Type(nil), x.eng.typeByID...)
	x.eng.mu.Unlock()
	for i, t := range ts {
		if i >= x.eng.baseTypes() {
			break
		}
		x.assume(x.tb.Implies(x.tb.Eq(d, x.tb.BV(32, uint64(i+1))), x.tb.Eq(r, x.tb.Bool(types.Implements(t, iface)))))
	}
	return r
}

// ---- memory ----

func (x *X) load(p PtrVal, pos string) Value {
	if p.obj == nil {
		x.oblige("nil dereference "+pos, x.tb.False())
	}
	switch p.obj.kind {
	case 'b':
		if p.idx != nil {
			return x.st.bytes[p.obj.id].At(x, p.idx)
		}
		if a, ok := p.obj.typ.Underlying().(*types.Array); ok {
			return BArrVal{x.st.bytes[p.obj.id], a.Len()}
		}
	case 'e':
		if p.idx != nil {
			return x.elemAt(p.obj, p.idx)
		}
	case 's':
		if x.onLoad != nil {
			x.onLoad(p, pos)
		}
		return x.walkPath(x.st.vals[p.obj.id], p.path)
	}
	x.unsupported("load from %v", p.obj)
	return nil
}

func (x *X) walkPath(v Value, path []int) Value {
	for _, i := range path {
		switch s := v.(type) {
		case StructVal:
			v = s.fields[i]
		case ArrVal:
			v = s.elems[i]
		case BArrVal:
			return s.seq.At(x, x.c64(int64(i)))
		case OpaqueVal:
			st, ok := s.typ.Underlying().(*types.Struct)
			if !ok || !st.Field(i).Exported() {
				x.unsupported("path into %s", s.typ)
			}
			v = x.symVal(st.Field(i).Type(), st.Field(i).Name()) // a field of a library struct may hold anything
		default:
			x.unsupported("path into %T", v)
		}
	}
	return v
}

func (x *X) setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch s := v.(type) {
	case StructVal:
		f := append([]Value(nil), s.fields...)
		f[path[0]] = x.setPath(f[path[0]], path[1:], nv)
		return StructVal{s.typ, f}
	case ArrVal:
		e := append([]Value(nil), s.elems...)
		e[path[0]] = x.setPath(e[path[0]], path[1:], nv)
		return ArrVal{e}
	}
	x.unsupported("store into %T", v)
	return nil
}

func (x *X) store(p PtrVal, v Value, pos string) {
	if p.obj == nil {
		x.oblige("nil dereference "+pos, x.tb.False())
	}
	switch p.obj.kind {
	case 'b':
		if p.idx != nil {
			x.writeBytes(p.obj, p.idx, x.c64(1), &BytesSeq{[]*Term{v.(*Term)}}, "store")
			return
		}
		if a, ok := v.(BArrVal); ok {
			x.writeBytes(p.obj, x.c64(0), x.c64(a.n), a.seq, "store")
			return
		}
	case 'e':
		if p.idx != nil {
			x.elemStore(p.obj, p.idx, v)
			return
		}
	case 's':
		x.st.vals[p.obj.id] = x.setPath(x.st.vals[p.obj.id], p.path, v)
		if x.onStore != nil {
			x.onStore(p)
		}
		return
	}
	x.unsupported("store to %v", p.obj)
}

// elemAt reads element idx of an element object.
func (x *X) elemAt(o *Obj, idx *Term) Value {
	et := o.typ.Underlying()
	var elem types.Type
	switch t := et.(type) {
	case *types.Slice:
		elem = t.Elem()
	case *types.Array:
		elem = t.Elem()
	}
	s, d := x.findSeg(o, idx)
	if s.n == nil {
		return s.one
	}
	if s.zero {
		return x.zero(elem)
	}
	return x.vecElem(elem, s.vec, x.tb.Add(s.from, d))
}

func (x *X) vecElem(elem types.Type, vec, idx *Term) Value {
	if s, ok := elem.Underlying().(*types.Struct); ok && !isOpaqueNamed(elem) {
		_ = s
		x.unsupported("slice of structs %s", elem)
	}
	so := x.sortOf(elem)
	v := x.fromTerm(elem, x.tb.App("elem_"+sortTag(so), so, vec, idx))
	if f, ok := v.(FuncVal); ok && x.con != nil && x.con.NonNilFuncs {
		x.assume(x.tb.Not(x.isNil(f)))
	}
	return v
}

func (x *X) findSeg(o *Obj, idx *Term) (ESeg, *Term) {
	d := idx
	for _, s := range x.st.elems[o.id].segs {
		n := x.segLen(s)
		if x.branch(x.tb.Ult(d, n)) {
			return s, d
		}
		d = x.tb.Sub(d, n)
	}
	x.unsupported("element index outside %v", o)
	return ESeg{}, nil
}

func (x *X) elemStore(o *Obj, idx *Term, v Value) {
	if !o.fresh && !x.guardOKElems(o) {
		x.oblige("frame: store to elements of "+o.name, x.tb.False())
	}
	x.st.elems[o.id] = &ERope{x.spliceElems(x.st.elems[o.id].segs, idx, []ESeg{{one: v}})}
	if x.elemWrites == nil {
		x.elemWrites = map[int]*elemWrite{}
	}
	x.elemWrites[o.id] = &elemWrite{idx, v}
}

// elemWrite is the last store to an element object (a hint for loop invariants).
type elemWrite struct {
	idx *Term
	v   Value
}

func (x *X) guardOKElems(o *Obj) bool { return false }

// spliceElems replaces the elements from idx on by ins (same total length).
func (x *X) spliceElems(segs []ESeg, idx *Term, ins []ESeg) []ESeg {
	tb := x.tb
	var out []ESeg
	d := idx
	i := 0
	// before idx
	for ; i < len(segs); i++ {
		n := x.segLen(segs[i])
		if d.IsConst() && d.val.Sign() == 0 {
			break
		}
		if x.decide(tb.Ule(n, d)) == 1 {
			out = append(out, segs[i])
			d = tb.Sub(d, n)
			continue
		}
		if x.decide(tb.Eq(d, x.c64(0))) == 1 {
			break
		}
		if segs[i].n == nil || x.decide(tb.Ule(d, n)) != 1 {
			x.unsupported("cannot locate element index")
		}
		a, b := x.cutSeg(segs[i], d)
		out = append(out, a)
		segs = append(append([]ESeg{}, b), segs[i+1:]...)
		i = 0
		break
	}
	out = append(out, ins...)
	rem := x.c64(0)
	for _, s := range ins {
		rem = tb.Add(rem, x.segLen(s))
	}
	for ; i < len(segs); i++ {
		if rem.IsConst() && rem.val.Sign() == 0 {
			break
		}
		n := x.segLen(segs[i])
		if x.decide(tb.Ule(n, rem)) == 1 {
			rem = tb.Sub(rem, n)
			continue
		}
		if x.decide(tb.Eq(rem, x.c64(0))) == 1 {
			break
		}
		if segs[i].n == nil || x.decide(tb.Ule(rem, n)) != 1 {
			x.unsupported("cannot locate end of element range")
		}
		_, b := x.cutSeg(segs[i], rem)
		out = append(out, b)
		i++
		break
	}
	for ; i < len(segs); i++ {
		if n := x.segLen(segs[i]); n.IsConst() && n.val.Sign() == 0 {
			continue
		}
		out = append(out, segs[i])
	}
	return out
}

func (x *X) cutSeg(s ESeg, d *Term) (ESeg, ESeg) {
	a, b := s, s
	a.n = d
	b.n = x.tb.Sub(s.n, d)
	if !s.zero {
		b.from = x.tb.Add(s.from, d)
	}
	return a, b
}

// subElems gives the segments of the element range [off, off+n).
func (x *X) subElems(o *Obj, off, n *Term) []ESeg {
	if o == nil {
		return nil
	}
	tb := x.tb
	var out []ESeg
	segs := x.st.elems[o.id].segs
	d, rem := off, n
	for _, s := range segs {
		if rem.IsConst() && rem.val.Sign() == 0 {
			break
		}
		sn := x.segLen(s)
		if !(d.IsConst() && d.val.Sign() == 0) {
			if x.decide(tb.Ule(sn, d)) == 1 {
				d = tb.Sub(d, sn)
				continue
			}
			if x.decide(tb.Eq(d, x.c64(0))) != 1 {
				if s.n == nil || x.decide(tb.Ule(d, sn)) != 1 {
					x.unsupported("cannot locate element range")
				}
				_, s = x.cutSeg(s, d)
				sn = s.n
			}
			d = x.c64(0)
		}
		if x.decide(tb.Ule(sn, rem)) == 1 {
			out = append(out, s)
			rem = tb.Sub(rem, sn)
			continue
		}
		if s.n == nil || x.decide(tb.Ule(rem, sn)) != 1 {
			if x.decide(tb.Eq(rem, x.c64(0))) == 1 {
				rem = x.c64(0)
				break
			}
			x.unsupported("cannot cut element range")
		}
		a, _ := x.cutSeg(s, rem)
		out = append(out, a)
		rem = x.c64(0)
	}
	return out
}

// ---- function execution ----

func (x *X) execFunc(fn *ssa.Function, args []Value, bind []Value) Value {
	if fn.Blocks == nil {
		x.unsupported("function %s has no body", fnKey(fn))
	}
	for _, f := range x.stack {
		if f == fn && x.depth > 3 {
			x.unsupported("recursion in %s without a contract", fnKey(fn))
		}
	}
	x.depth++
	if x.depth > 40 {
		x.unsupported("call depth")
	}
	x.stack = append(x.stack, fn)
	defer func() { x.depth--; x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*LoopRun{}, info: loopInfo(fn), args: args}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	return x.run(fr, fn.Blocks[0], nil)
}

// run executes from blk (entered from pred) until return.
func (x *X) run(fr *Frame, blk, pred *ssa.BasicBlock) Value {
	for {
		if x.steps++; x.steps > 400000 {
			x.unsupported("step limit")
		}
		// phis
		if pred != nil {
			var phis []*ssa.Phi
			var vals []Value
			pi := -1
			for i, p := range blk.Preds {
				if p == pred {
					pi = i
				}
			}
			for _, in := range blk.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, ph)
				vals = append(vals, x.eval(fr, ph.Edges[pi]))
			}
			if L := fr.info.headers[blk]; L != nil {
				vals = x.atHeader(fr, L, pred, phis, vals)
			} else if fr.probe != nil && !fr.probe.loop.body[blk] {
				panic(loopExit{})
			}
			for i, ph := range phis {
				fr.env[ph] = vals[i]
			}
		}
		next, ret, done := x.block(fr, blk)
		if done {
			if fr.probe != nil {
				panic(loopExit{})
			}
			return ret
		}
		pred, blk = blk, next
	}
}

func (x *X) pos2(in ssa.Instruction) string {
	if in.Parent() == nil {
		return ""
	}
	p := in.Parent().Prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		return "(" + in.Parent().Name() + ")"
	}
	f := p.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("(%s:%d in %s)", f, p.Line, in.Parent().Name())
}

func (x *X) block(fr *Frame, blk *ssa.BasicBlock) (next *ssa.BasicBlock, ret Value, done bool) {
	for _, in := range blk.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return blk.Succs[0], nil, false
		case *ssa.If:
			c := x.eval(fr, in.Cond).(*Term)
			x.noteExit(fr, blk, in.Cond, c)
			if x.branch(c) {
				return blk.Succs[0], nil, false
			}
			return blk.Succs[1], nil, false
		case *ssa.Return:
			if len(in.Results) == 0 {
				return nil, nil, true
			}
			if len(in.Results) == 1 {
				return nil, x.eval(fr, in.Results[0]), true
			}
			var tv TupleVal
			for _, r := range in.Results {
				tv = append(tv, x.eval(fr, r))
			}
			return nil, tv, true
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			for i := len(ds) - 1; i >= 0; i-- {
				ds[i]()
			}
		case *ssa.Panic:
			panic(targetPanic{x.eval(fr, in.X)})
		case *ssa.Store:
			x.store(x.ptr(x.eval(fr, in.Addr), in), x.eval(fr, in.Val), x.pos2(in))
		case *ssa.Defer:
			cc := in.Call
			f, args := x.callee(fr, &cc, in)
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], func() { x.callValue(f, args, &cc, in) })
		case *ssa.MapUpdate:
			x.event("mapupdate", x.eval(fr, in.Map), x.eval(fr, in.Key), x.eval(fr, in.Value))
			x.unsupported("map update")
		case *ssa.Send:
			x.chanSend(fr, x.eval(fr, in.Chan), x.eval(fr, in.X), in)
		case *ssa.Go:
			x.unsupported("go statement %s", x.pos2(in))
		case ssa.Value:
			fr.env[in] = x.instr(fr, in, in.(ssa.Instruction))
		default:
			x.unsupported("instruction %T", in)
		}
	}
	x.unsupported("block without terminator")
	return nil, nil, true
}

func (x *X) ptr(v Value, in ssa.Instruction) PtrVal {
	switch p := v.(type) {
	case PtrVal:
		if p.obj == nil {
			x.oblige("nil dereference "+x.pos2(in), x.tb.False())
			panic(abortPath{"nil"})
		}
		return p
	case OpaqueVal:
		x.oblige("nil dereference "+x.pos2(in), x.tb.Not(x.isNil(p)))
		return x.opaqueTarget(p)
	}
	x.unsupported("pointer %T", v)
	return PtrVal{}
}

// opaqueTarget materialises the object behind an opaque pointer.
func (x *X) opaqueTarget(p OpaqueVal) PtrVal {
	el := p.typ.Underlying().(*types.Pointer).Elem()
	k := fmt.Sprintf("%d/ptr", p.t.id)
	o := x.termObjs[k]
	if o == nil {
		o = x.newObj('s', el, "*"+p.t.String())
		o.fresh = false
		x.termObjs[k] = o
		x.st.vals[o.id] = x.derefVal(el, p.t)
		x.lazyEntry(o)
	}
	return PtrVal{obj: o, typ: el}
}

func (x *X) derefVal(el types.Type, t *Term) Value {
	if s, ok := el.Underlying().(*types.Struct); ok && !isOpaqueNamed(el) {
		sv := StructVal{typ: el}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if _, ok := ft.Underlying().(*types.Struct); ok && !isOpaqueNamed(ft) {
				sv.fields = append(sv.fields, x.derefVal(ft, x.tb.App("sub_"+typeName(el)+"."+s.Field(i).Name(), SRef, t)))
				continue
			}
			so := x.sortOf(ft)
			sv.fields = append(sv.fields, x.fromTerm(ft, x.tb.App("fld_"+typeName(el)+"."+s.Field(i).Name(), so, t)))
		}
		return sv
	}
	so := x.sortOf(el)
	return x.fromTerm(el, x.tb.App("deref_"+typeName(el), so, t))
}

func (x *X) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if w, _, ok := intInfo(t); ok {
		v := constant.ToInt(c.Value)
		b, _ := constant.Val(v).(int64)
		if i, exact := constant.Int64Val(v); exact {
			b = i
			return x.tb.BVi(w, b)
		}
		u, _ := constant.Uint64Val(v)
		return x.tb.BV(w, u)
	}
	b := t.Underlying().(*types.Basic)
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.tb.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return x.str(constant.StringVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		return x.floatConst(c.Value, b.Kind() == types.Float32)
	}
	x.unsupported("constant %s", c)
	return nil
}

func (x *X) eval(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return FuncVal{fn: v, typ: v.Type()}
	case *ssa.Builtin:
		return FuncVal{blt: v, typ: v.Type()}
	case *ssa.Global:
		return x.global(v)
	}
	r, ok := fr.env[v]
	if !ok {
		x.unsupported("value %s not computed in %s", v.Name(), fr.fn.Name())
	}
	return r
}

func (x *X) instr(fr *Frame, v ssa.Value, in ssa.Instruction) Value {
	tb := x.tb
	switch i := v.(type) {
	case *ssa.Alloc:
		return x.alloc(i.Type().Underlying().(*types.Pointer).Elem(), i.Comment)
	case *ssa.BinOp:
		return x.binop(i.Op, x.eval(fr, i.X), x.eval(fr, i.Y), i.X.Type(), i.Y.Type(), in)
	case *ssa.UnOp:
		o := x.eval(fr, i.X)
		switch i.Op {
		case token.MUL:
			p := x.ptr(o, in)
			return x.load(p, x.pos2(in))
		case token.NOT:
			return tb.Not(o.(*Term))
		case token.SUB:
			if u, ok := i.X.Type().Underlying().(*types.Basic); ok && u.Info()&types.IsFloat != 0 {
				w := 64
				if u.Kind() == types.Float32 {
					w = 32
				}
				return tb.BVBin("bvxor", o.(*Term), tb.BV(w, 1<<(w-1)))
			}
			return tb.Neg(o.(*Term))
		case token.XOR:
			return tb.BVNot(o.(*Term))
		case token.ARROW:
			return x.chanRecv(fr, o, i.CommaOk, i)
		}
	case *ssa.Call:
		f, args := x.callee(fr, &i.Call, in)
		return x.callValue(f, args, &i.Call, in)
	case *ssa.ChangeInterface:
		return x.eval(fr, i.X)
	case *ssa.ChangeType:
		return x.changeType(x.eval(fr, i.X), i.Type())
	case *ssa.Convert:
		return x.convert(x.eval(fr, i.X), i.X.Type(), i.Type(), in)
	case *ssa.Extract:
		return x.eval(fr, i.Tuple).(TupleVal)[i.Index]
	case *ssa.Field:
		s, ok := x.eval(fr, i.X).(StructVal)
		if !ok {
			x.unsupported("field of %T", x.eval(fr, i.X))
		}
		return s.fields[i.Field]
	case *ssa.FieldAddr:
		p := x.ptr(x.eval(fr, i.X), in)
		return PtrVal{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], i.Field), typ: i.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Index:
		return x.index(x.eval(fr, i.X), x.idx(x.eval(fr, i.Index), i.Index.Type()), in)
	case *ssa.IndexAddr:
		return x.indexAddr(fr, i)
	case *ssa.Lookup:
		return x.lookup(fr, i)
	case *ssa.MakeClosure:
		var b []Value
		for _, bv := range i.Bindings {
			b = append(b, x.eval(fr, bv))
		}
		return FuncVal{fn: i.Fn.(*ssa.Function), bind: b, typ: i.Type()}
	case *ssa.MakeInterface:
		return IfaceVal{typ: i.X.Type(), val: x.eval(fr, i.X)}
	case *ssa.MakeSlice:
		return x.makeSlice(i.Type().Underlying().(*types.Slice).Elem(), x.eval(fr, i.Len).(*Term), x.eval(fr, i.Cap).(*Term), x.pos2(in))
	case *ssa.MakeChan:
		return x.makeChan(i.Type(), x.eval(fr, i.Size))
	case *ssa.MakeMap:
		return OpaqueVal{tb.Fresh("map", SRef), i.Type()}
	case *ssa.Slice:
		return x.sliceOp(fr, i)
	case *ssa.TypeAssert:
		return x.typeAssert(x.eval(fr, i.X), i.AssertedType, i.CommaOk, in)
	case *ssa.Range:
		return x.rangeStart(fr, i)
	case *ssa.Next:
		return x.rangeNext(fr, i)
	case *ssa.Select:
		return x.selectOp(fr, i)
	case *ssa.SliceToArrayPointer:
		x.unsupported("slice to array pointer")
	}
	x.unsupported("instruction %T %s", v, x.pos2(in))
	return nil
}

func (x *X) changeType(v Value, t types.Type) Value {
	switch s := v.(type) {
	case StructVal:
		s.typ = t
		return s
	case FuncVal:
		s.typ = t
		return s
	case OpaqueVal:
		s.typ = t
		return s
	}
	return v
}

func (x *X) idx(v Value, t types.Type) *Term {
	tm := v.(*Term)
	_, signed, _ := intInfo(t)
	return x.tb.Conv(tm, 64, signed)
}

func (x *X) alloc(t types.Type, name string) Value {
	switch u := t.Underlying().(type) {
	case *types.Array:
		if isByteType(u.Elem()) {
			o := x.newObj('b', t, name)
			x.st.bytes[o.id] = ZeroSeq{}
			return PtrVal{obj: o, typ: t}
		}
		if w, _, isInt := intInfo(u.Elem()); isInt && w > 8 {
			break
		}
		o := x.newObj('e', t, name)
		var segs []ESeg
		for i := int64(0); i < u.Len(); i++ {
			segs = append(segs, ESeg{one: x.zero(u.Elem())})
		}
		x.st.elems[o.id] = &ERope{segs}
		return PtrVal{obj: o, typ: t}
	}
	o := x.newObj('s', t, name)
	x.st.vals[o.id] = x.zero(t)
	return PtrVal{obj: o, typ: t}
}

func (x *X) makeSlice(elem types.Type, n, cp *Term, pos string) Value {
	tb := x.tb
	n = tb.Conv(n, 64, true)
	cp = tb.Conv(cp, 64, true)
	x.oblige("makeslice length in range "+pos, tb.And(tb.Ule(n, cp), tb.Ult(cp, tb.BVBig(64, new2(47)))))
	t := types.NewSlice(elem)
	if isByteType(elem) {
		o := x.newObj('b', t, "make")
		x.st.bytes[o.id] = ZeroSeq{}
		return SliceVal{obj: o, off: x.c64(0), n: n, cap: cp, isnil: tb.False(), elem: elem}
	}
	o := x.newObj('e', t, "make")
	x.st.elems[o.id] = &ERope{[]ESeg{{zero: true, n: cp, from: x.c64(0)}}}
	return SliceVal{obj: o, off: x.c64(0), n: n, cap: cp, isnil: tb.False(), elem: elem}
}

func (x *X) indexAddr(fr *Frame, i *ssa.IndexAddr) Value {
	tb := x.tb
	base := x.eval(fr, i.X)
	k := x.idx(x.eval(fr, i.Index), i.Index.Type())
	pos := x.pos2(i)
	et := i.Type().Underlying().(*types.Pointer).Elem()
	switch b := base.(type) {
	case SliceVal:
		x.oblige("index in range "+pos, tb.Ult(k, b.n))
		if b.obj == nil {
			panic(abortPath{"index of nil slice"})
		}
		if b.obj.kind == 's' {
			kk := tb.Add(b.off, k)
			if !kk.IsConst() {
				x.unsupported("symbolic index into array %s", pos)
			}
			return PtrVal{obj: b.obj, path: []int{int(kk.val.Int64())}, typ: et}
		}
		return PtrVal{obj: b.obj, idx: tb.Add(b.off, k), typ: et}
	case PtrVal:
		if b.obj == nil {
			x.oblige("nil dereference "+pos, tb.False())
		}
		n := b.typ.Underlying().(*types.Array).Len()
		x.oblige("index in range "+pos, tb.Ult(k, x.c64(n)))
		if b.obj.kind != 's' {
			return PtrVal{obj: b.obj, idx: k, typ: et}
		}
		if !k.IsConst() {
			// small arrays: fork on the index
			for j := int64(0); j < n; j++ {
				if x.branch(tb.Eq(k, x.c64(j))) {
					return PtrVal{obj: b.obj, path: append(b.path[:len(b.path):len(b.path)], int(j)), typ: et}
				}
			}
			panic(abortPath{"index"})
		}
		return PtrVal{obj: b.obj, path: append(b.path[:len(b.path):len(b.path)], int(k.val.Int64())), typ: et}
	case OpaqueVal:
		p := x.opaqueTarget(b)
		_ = p
	}
	x.unsupported("indexaddr of %T %s", base, pos)
	return nil
}

func (x *X) index(v Value, k *Term, in ssa.Instruction) Value {
	tb := x.tb
	switch s := v.(type) {
	case StrVal:
		x.oblige("index in range "+x.pos2(in), tb.Ult(k, s.n))
		return s.seq.At(x, k)
	case BArrVal:
		x.oblige("index in range "+x.pos2(in), tb.Ult(k, x.c64(s.n)))
		return s.seq.At(x, k)
	case ArrVal:
		x.oblige("index in range "+x.pos2(in), tb.Ult(k, x.c64(int64(len(s.elems)))))
		if k.IsConst() {
			return s.elems[k.val.Int64()]
		}
		var r *Term
		for j := len(s.elems) - 1; j >= 0; j-- {
			e, ok := s.elems[j].(*Term)
			if !ok {
				x.unsupported("symbolic index into array")
			}
			if r == nil {
				r = e
			} else {
				r = tb.Ite(tb.Eq(k, x.c64(int64(j))), e, r)
			}
		}
		return r
	}
	x.unsupported("index of %T", v)
	return nil
}

func (x *X) lookup(fr *Frame, i *ssa.Lookup) Value {
	v := x.eval(fr, i.X)
	if s, ok := v.(StrVal); ok {
		return x.index(s, x.idx(x.eval(fr, i.Index), i.Index.Type()), i)
	}
	return x.mapLookup(v, x.eval(fr, i.Index), i)
}

func (x *X) sliceOp(fr *Frame, i *ssa.Slice) Value {
	tb := x.tb
	v := x.eval(fr, i.X)
	get := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return x.idx(x.eval(fr, o), o.Type())
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	pos := x.pos2(i)
	if lo == nil {
		lo = x.c64(0)
	}
	switch s := v.(type) {
	case StrVal:
		if hi == nil {
			hi = s.n
		}
		x.oblige("slice bounds "+pos, tb.And(tb.Ule(lo, hi), tb.Ule(hi, s.n)))
		if cs, ok := s.seq.(*ConstSeq); ok && lo.IsConst() && hi.IsConst() {
			return x.str(cs.s[lo.val.Int64():hi.val.Int64()])
		}
		if lo.IsConst() && lo.val.Sign() == 0 && hi == s.n {
			return s
		}
		return StrVal{seq: x.view(s.seq, lo), n: tb.Sub(hi, lo)}
	case SliceVal:
		if hi == nil {
			hi = s.n
		}
		if mx == nil {
			mx = s.cap
		} else {
			x.oblige("slice bounds (max) "+pos, tb.Ule(mx, s.cap))
		}
		if lo.IsConst() && lo.val.Sign() == 0 && hi == s.n && mx == s.cap {
			return s
		}
		x.oblige("slice bounds "+pos, tb.And(tb.Ule(lo, hi), tb.Ule(hi, mx)))
		return SliceVal{obj: s.obj, off: tb.Add(s.off, lo), n: tb.Sub(hi, lo), cap: tb.Sub(mx, lo), isnil: s.isnil, elem: s.elem}
	case PtrVal: // pointer to array
		if s.obj == nil {
			x.oblige("nil dereference "+pos, tb.False())
		}
		a := s.typ.Underlying().(*types.Array)
		n := x.c64(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		x.oblige("slice bounds "+pos, tb.And(tb.Ule(lo, hi), tb.Ule(hi, mx), tb.Ule(mx, n)))
		if len(s.path) > 0 {
			x.unsupported("slice of embedded array %s", pos)
		}
		return SliceVal{obj: s.obj, off: lo, n: tb.Sub(hi, lo), cap: tb.Sub(mx, lo), isnil: tb.False(), elem: a.Elem()}
	}
	x.unsupported("slice of %T", v)
	return nil
}

func (x *X) typeAssert(v Value, t types.Type, commaOk bool, in ssa.Instruction) Value {
	tb := x.tb
	iv, isI := v.(IfaceVal)
	if !isI {
		x.unsupported("type assertion on %T", v)
	}
	fail := func() Value {
		if commaOk {
			return TupleVal{x.zero(t), tb.False()}
		}
		x.oblige("type assertion "+x.pos2(in), tb.False())
		panic(abortPath{"type assertion"})
	}
	okv := func(r Value) Value {
		if commaOk {
			return TupleVal{r, tb.True()}
		}
		return r
	}
	_, toIface := t.Underlying().(*types.Interface)
	if iv.term == nil {
		if iv.typ == nil {
			return fail()
		}
		if toIface {
			if types.Implements(iv.typ, t.Underlying().(*types.Interface)) {
				return okv(iv)
			}
			return fail()
		}
		if types.Identical(iv.typ, t) {
			return okv(iv.val)
		}
		return fail()
	}
	var c *Term
	if toIface {
		c = x.implements(iv.term, t)
	} else {
		c = tb.Eq(x.dyn(iv.term), x.tid(t))
	}
	if x.branch(c) {
		if toIface {
			return okv(iv)
		}
		return okv(x.payload(iv.term, t))
	}
	return fail()
}

func (x *X) convert(v Value, from, to types.Type, in ssa.Instruction) Value {
	tb := x.tb
	if w, _, ok := intInfo(to); ok {
		if _, s, ok := intInfo(from); ok {
			return tb.Conv(v.(*Term), w, s)
		}
	}
	fb, fIsB := from.Underlying().(*types.Basic)
	tbb, tIsB := to.Underlying().(*types.Basic)
	fs, fIsS := from.Underlying().(*types.Slice)
	ts, tIsS := to.Underlying().(*types.Slice)
	switch {
	case fIsB && fb.Info()&types.IsString != 0 && tIsS && isByteType(ts.Elem()):
		s := v.(StrVal)
		o := x.newObj('b', to, "bytes("+s.name()+")")
		x.st.bytes[o.id] = s.seq
		cp := tb.Fresh("cap", SBV(64))
		x.assume(tb.Ule(s.n, cp))
		x.assume(tb.Ult(cp, tb.BVBig(64, new2(41))))
		return SliceVal{obj: o, off: x.c64(0), n: s.n, cap: cp, isnil: tb.False(), elem: ts.Elem()}
	case fIsS && isByteType(fs.Elem()) && tIsB && tbb.Info()&types.IsString != 0:
		s := v.(SliceVal)
		return StrVal{seq: x.sliceSeq(s), n: s.n}
	case fIsB && tIsB && fb.Info()&types.IsString != 0 && tbb.Info()&types.IsString != 0:
		return v
	case fIsB && tIsB && fb.Info()&types.IsFloat != 0 && tbb.Info()&types.IsFloat != 0:
		if types.Identical(from.Underlying(), to.Underlying()) {
			return v
		}
		return tb.App(fmt.Sprintf("fconv_%s_%s", fb.Name(), tbb.Name()), x.sortOf(to), v.(*Term))
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x.changeType(v, to)
	}
	x.unsupported("conversion %s -> %s %s", from, to, x.pos2(in))
	return nil
}

func (s StrVal) name() string {
	if c, ok := s.seq.(*ConstSeq); ok {
		return c.s
	}
	return "str"
}

// asVlen replaces a formula over the bit length of v by the varint length of v when the two are provably
// equal, so that the arithmetic on lengths stays linear.
func (x *X) asVlen(r *Term) *Term {
	var a *Term
	n := 0
	ok := true
	walk(map[*Term]bool{}, func(t *Term) {
		n++
		if t.op == "app" && t.name == "blen" {
			if a != nil && a != t.args[0] {
				ok = false
			}
			a = t.args[0]
		}
	}, r)
	if a == nil || !ok || r.sort.K != KBV {
		return r
	}
	if c, ok := x.vlenMemo[r]; ok {
		return c
	}
	// a lemma about all values of a: no hypotheses
	tb := x.tb
	v := tb.Var("lemma_v", a.sort)
	g := tb.Subst(r, map[*Term]*Term{a: v}, map[*Term]*Term{})
	c := tb.Conv(x.vlen(tb.Conv(a, 64, false)), r.sort.W, false)
	gc := tb.Conv(x.vlen(tb.Conv(v, 64, false)), r.sort.W, false)
	as := []*Term{tb.Ne(g, gc)}
	as = append(as, x.axioms(as)...)
	if quickCheck(as, 4000) != Unsat {
		c = r
	}
	x.vlenMemo[r] = c
	return c
}

func (x *X) binop(op token.Token, a, b Value, ta, tbt types.Type, in ssa.Instruction) Value {
	tb := x.tb
	switch op {
	case token.EQL:
		return x.goEqual(a, b, ta, in)
	case token.NEQ:
		return tb.Not(x.goEqual(a, b, ta, in))
	}
	if sa, ok := a.(StrVal); ok {
		sb := b.(StrVal)
		if op == token.ADD {
			return x.strCat(sa, sb)
		}
		x.unsupported("string comparison %s", op)
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		x.unsupported("binop %s on %T", op, a)
	}
	w, signed, isInt := intInfo(ta)
	if !isInt {
		if ta.Underlying().(*types.Basic).Info()&types.IsFloat != 0 {
			so := x.sortOf(ta)
			switch op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return tb.App("fcmp_"+op.String(), SBool, p, q)
			}
			return tb.App("fop_"+op.String()+sortTag(so), so, p, q)
		}
		x.unsupported("binop %s on %s", op, ta)
	}
	switch op {
	case token.ADD:
		return tb.Add(p, q)
	case token.SUB:
		return tb.Sub(p, q)
	case token.MUL:
		return tb.Mul(p, q)
	case token.QUO, token.REM:
		x.oblige("division by zero "+x.pos2(in), tb.Ne(q, tb.BV(w, 0)))
		o := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[signed][op]
		if signed {
			// a non-negative dividend and positive divisor: same as unsigned
			if q.IsConst() && sgn(q).Sign() > 0 && !p.IsConst() && x.decide(tb.Not(tb.Slt(p, tb.BV(w, 0)))) == 1 {
				o = map[token.Token]string{token.QUO: "bvudiv", token.REM: "bvurem"}[op]
			}
		}
		return x.asVlen(tb.BVBin(o, p, q))
	case token.AND:
		return tb.BVBin("bvand", p, q)
	case token.OR:
		return tb.BVBin("bvor", p, q)
	case token.XOR:
		return tb.BVBin("bvxor", p, q)
	case token.AND_NOT:
		return tb.BVBin("bvand", p, tb.BVNot(q))
	case token.SHL, token.SHR:
		wq, sq, _ := intInfo(tbt)
		if sq {
			x.oblige("negative shift "+x.pos2(in), tb.Not(tb.Slt(q, tb.BV(wq, 0))))
		}
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
			if signed {
				o = "bvashr"
			}
		}
		if o == "bvlshr" && q.IsConst() && wq <= w {
			return x.asVlen(tb.BVBin(o, p, tb.Zext(w, q)))
		}
		if wq > w {
			big := tb.Not(tb.Ult(q, tb.BV(wq, uint64(w))))
			sh := tb.BVBin(o, p, tb.Extract(w-1, 0, q))
			var over *Term
			if o == "bvashr" {
				over = tb.BVBin(o, p, tb.BV(w, uint64(w-1)))
			} else {
				over = tb.BV(w, 0)
			}
			return tb.Ite(big, over, sh)
		}
		return tb.BVBin(o, p, tb.Conv(q, w, false))
	case token.LSS:
		if signed {
			return tb.Slt(p, q)
		}
		return tb.Ult(p, q)
	case token.GTR:
		if signed {
			return tb.Slt(q, p)
		}
		return tb.Ult(q, p)
	case token.LEQ:
		if signed {
			return tb.Sle(p, q)
		}
		return tb.Ule(p, q)
	case token.GEQ:
		if signed {
			return tb.Sle(q, p)
		}
		return tb.Ule(q, p)
	}
	x.unsupported("binop %s", op)
	return nil
}

func (x *X) strCat(a, b StrVal) StrVal {
	ca, ok1 := a.seq.(*ConstSeq)
	cb, ok2 := b.seq.(*ConstSeq)
	if ok1 && ok2 {
		return x.str(ca.s + cb.s)
	}
	var ps []Piece
	for _, s := range []StrVal{a, b} {
		if r, ok := s.seq.(*RopeSeq); ok {
			ps = append(ps, r.ps...)
		} else {
			ps = append(ps, Piece{seq: s.seq, n: s.n, lab: "str"})
		}
	}
	return StrVal{seq: &RopeSeq{ps}, n: x.tb.Add(a.n, b.n)}
}

// goEqual is Go's ==, which is not identity for floats (zeros of either sign are equal, NaNs are not).
func (x *X) goEqual(a, b Value, t types.Type, in ssa.Instruction) *Term {
	tb := x.tb
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			p, q := a.(*Term), b.(*Term)
			w, inf := 64, uint64(0x7FF)<<52
			if u.Kind() == types.Float32 {
				w, inf = 32, 0xFF<<23
			}
			mag := func(v *Term) *Term { return tb.BVBin("bvand", v, tb.BV(w, 1<<(w-1)-1)) }
			nan := func(v *Term) *Term { return tb.Ult(tb.BV(w, inf), mag(v)) }
			zero := func(v *Term) *Term { return tb.Eq(mag(v), tb.BV(w, 0)) }
			return tb.And(tb.Not(nan(p)), tb.And(tb.Not(nan(q)), tb.Or(tb.Eq(p, q), tb.And(zero(p), zero(q)))))
		}
	case *types.Struct, *types.Array:
		if hasFloat(t) {
			x.unsupported("comparison of %s, which contains floats or interfaces %s", t, x.pos2(in))
		}
	case *types.Interface:
		p, ok1 := a.(IfaceVal)
		q, ok2 := b.(IfaceVal)
		if ok1 && ok2 && u.NumMethods() == 0 && !p.isNilConst() && !q.isNilConst() {
			x.unsupported("comparison of two interface{} values %s", x.pos2(in))
		}
	}
	return x.equal(a, b, in)
}

func hasFloat(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsFloat|types.IsComplex) != 0
	case *types.Interface:
		return u.NumMethods() == 0
	case *types.Array:
		return hasFloat(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasFloat(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (x *X) equal(a, b Value, in ssa.Instruction) *Term {
	tb := x.tb
	if p, ok := a.(*Term); ok {
		if q, ok := b.(*Term); ok {
			return tb.Eq(p, q)
		}
	}
	isNilConst := func(v Value) bool {
		switch s := v.(type) {
		case nil:
			return true
		case SliceVal:
			return s.obj == nil
		case PtrVal:
			return s.obj == nil
		case IfaceVal:
			return s.isNilConst()
		case FuncVal:
			return s.isNilConst()
		case OpaqueVal:
			return s.t.op == "var" && s.t.name == "nilref"
		}
		return false
	}
	if isNilConst(b) {
		return x.isNil(a)
	}
	if isNilConst(a) {
		return x.isNil(b)
	}
	switch p := a.(type) {
	case PtrVal:
		q, ok := b.(PtrVal)
		if ok {
			if p.obj == q.obj && p.idx == nil && q.idx == nil {
				return tb.Bool(fmt.Sprint(p.path) == fmt.Sprint(q.path))
			}
			if p.obj != q.obj {
				return tb.False()
			}
		}
	case OpaqueVal:
		if q, ok := b.(OpaqueVal); ok {
			return tb.Eq(p.t, q.t)
		}
	case StrVal:
		q, ok := b.(StrVal)
		if ok {
			return x.strEq(p, q)
		}
	case IfaceVal:
		q, ok := b.(IfaceVal)
		if ok {
			return x.ifaceEq(p, q, in)
		}
	case StructVal:
		q, ok := b.(StructVal)
		if ok {
			r := tb.True()
			for i := range p.fields {
				r = tb.And(r, x.equal(p.fields[i], q.fields[i], in))
			}
			return r
		}
	}
	x.unsupported("comparison of %T and %T", a, b)
	return nil
}

func (x *X) ifaceEq(p, q IfaceVal, in ssa.Instruction) *Term {
	tb := x.tb
	if p.term != nil && q.term != nil {
		return tb.Eq(p.term, q.term)
	}
	if p.term == nil && q.term == nil {
		if !types.Identical(p.typ, q.typ) {
			return tb.False()
		}
		return x.equal(p.val, q.val, in)
	}
	if p.term == nil {
		p, q = q, p
	}
	// symbolic p, concrete q
	if t := x.reifyIface(q); t != nil {
		return tb.Eq(p.term, t)
	}
	return tb.And(tb.Eq(x.dyn(p.term), x.tid(q.typ)), x.equal(x.payload(p.term, q.typ), q.val, in))
}

// reifyIface gives the term of a concrete interface value if it came from one.
func (x *X) reifyIface(v IfaceVal) *Term {
	if v.term != nil {
		return v.term
	}
	return nil
}

func (x *X) strEq(p, q StrVal) *Term {
	tb := x.tb
	cp, ok1 := p.seq.(*ConstSeq)
	cq, ok2 := q.seq.(*ConstSeq)
	if ok1 && ok2 {
		return tb.Bool(cp.s == cq.s)
	}
	if p.orig != nil && p.orig == q.orig {
		return tb.True()
	}
	if ok1 {
		p, q, cp, cq, ok2 = q, p, cq, cp, true
	}
	if ok2 {
		r := tb.Eq(p.n, x.c64(int64(len(cq.s))))
		for i := range cq.s {
			r = tb.And(r, tb.Eq(p.seq.At(x, x.c64(int64(i))), tb.BV(8, uint64(cq.s[i]))))
		}
		return r
	}
	if p.orig != nil && q.orig != nil {
		return tb.Eq(p.orig, q.orig)
	}
	x.unsupported("comparison of symbolic strings")
	return nil
}

// lazyEntry adds an object that existed before the call but was first met now to the entry state.
func (x *X) lazyEntry(o *Obj) {
	if x.entry == nil {
		return
	}
	switch o.kind {
	case 'b':
		x.entry.bytes[o.id] = x.st.bytes[o.id]
	case 'e':
		x.entry.elems[o.id] = x.st.elems[o.id]
	case 's':
		x.entry.vals[o.id] = x.st.vals[o.id]
	}
	x.entry.fams[o.fam] = x.st.fams[o.fam]
}
