package main

// Loops: unrolled when the exit test is decided by constants, otherwise cut at the header with an
// inductive invariant. The shape of the invariant is guessed per location (unchanged, affine in the
// iteration number, buffer extended by a specified concatenation, pointer chain, arbitrary); every guess
// is then an obligation at the back edge.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(n int) string { return strconv.Itoa(n) }

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type LoopInfo struct {
	headers map[*ssa.BasicBlock]*Loop
	of      map[*ssa.BasicBlock][]*Loop
}

// Probe is kept for symmetry with Frame; unused (no nested exploration).
type Probe struct{ loop *Loop }
type loopExit struct{}

type restartVerify struct{}

func loopInfo(fn *ssa.Function) *LoopInfo {
	li := &LoopInfo{headers: map[*ssa.BasicBlock]*Loop{}, of: map[*ssa.BasicBlock][]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := li.headers[s]
				if L == nil {
					L = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = L
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					w := work[len(work)-1]
					work = work[:len(work)-1]
					if L.body[w] {
						continue
					}
					L.body[w] = true
					work = append(work, w.Preds...)
				}
			}
		}
	}
	for _, L := range li.headers {
		for b := range L.body {
			li.of[b] = append(li.of[b], L)
		}
	}
	return li
}

const (
	lmProbe = iota
	lmUnroll
	lmCut
)

// Guess is the current hypothesis for one location of one loop.
type Guess struct {
	cls  string // same, ghost, step?, affine, cand, deref, havoc
	typ  types.Type
	step *Term
	cand int
	fill *elemFill
	pc   int   // candidate of Contract.Ghost.Phis
	keep Value // value of the first entry, for "mem" locations
}

type LoopGuess struct {
	mode  int
	ghost bool // the loop changes ghost state
	phis  map[int]*Guess
	mem   map[string]*Guess
	off   map[int]bool      // candidates whose condition does not hold for all items visited so far
	fills map[int]*elemFill // element objects filled in the loop
}

// elemFill: after k iterations the elements from at on are k elements of vec from from on.
type elemFill struct {
	at, from, n *Term
	vec         *Term
}

type LoopRun struct {
	key   string
	g     *LoopGuess
	iters int
	spec  *LoopSpec
	// cut mode
	k      *Term
	ent    []Value
	hdr    []Value
	hst    *State
	est    *State
	cands  []*Cat
	ents   map[string]Value
	hdrs   map[string]Value
	traceN int
	fail   int  // sticky error state at the header: 0 not chosen, 1 no failure so far, 2 an item has failed
	failed bool // at the back edge
}

// LoopSpec is a hand-written invariant.
type LoopSpec struct {
	Enter func(x *X, vals []Value) []Value
	Back  func(x *X, vals []Value)
}

func (x *X) loopKey(fr *Frame, L *Loop) string {
	var sb strings.Builder
	for _, f := range x.stack {
		sb.WriteString(fnKey(f))
		sb.WriteByte('>')
	}
	return sb.String() + itoa(L.header.Index)
}

func (x *X) restart() { panic(restartVerify{}) }

func (x *X) noteExit(fr *Frame, blk *ssa.BasicBlock, cond ssa.Value, c *Term) {
	isConst := c.IsConst()
	if e, ok := cond.(*ssa.Extract); ok && isConst {
		// the test of a type assertion is a case split already made
		if ta, ok := e.Tuple.(*ssa.TypeAssert); ok {
			if v, ok := x.eval(fr, ta.X).(IfaceVal); ok && v.term != nil {
				isConst = false
			}
		}
	}
	for _, L := range fr.info.of[blk] {
		out := false
		for _, s := range blk.Succs {
			if !L.body[s] {
				out = true
			}
		}
		if !out {
			continue
		}
		lr := fr.loops[L.header]
		if lr == nil || lr.g == nil || lr.g.mode != lmProbe {
			continue
		}
		debugf("probe %s block %d: %s", lr.key, blk.Index, clip(c.String(), 100))
		if isConst || shiftLoop(L) {
			lr.g.mode = lmUnroll
			continue
		}
		lr.g.mode = lmCut
		x.restart()
	}
}

// shiftLoop: a header variable is divided or shifted right by a constant in each iteration.
func shiftLoop(L *Loop) bool {
	for _, in := range L.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range L.header.Preds {
			if !L.body[p] {
				continue
			}
			if b, ok := ph.Edges[i].(*ssa.BinOp); ok && b.X == ph && (b.Op == token.SHR || b.Op == token.QUO) {
				if _, isC := b.Y.(*ssa.Const); isC {
					return true
				}
			}
		}
	}
	return false
}

func (x *X) atHeader(fr *Frame, L *Loop, pred *ssa.BasicBlock, phis []*ssa.Phi, vals []Value) []Value {
	if L.body[pred] {
		lr := fr.loops[L.header]
		if lr == nil {
			x.unsupported("irreducible loop in %s", fnKey(fr.fn))
		}
		if lr.spec != nil {
			lr.spec.Back(x, vals)
			panic(abortPath{"cut"})
		}
		if lr.g.mode != lmCut {
			lr.iters++
			if lr.iters > 3 && x.con != nil && x.con.Ghost != nil && lr.g.mode == lmUnroll && (x.con.Ghost.Always || x.ghostChanged(lr.est)) {
				lr.g.mode = lmCut
				lr.g.ghost = true
				x.restart()
			}
			if lr.iters > 90 {
				x.unsupported("loop in %s runs more than 90 iterations without an invariant", fnKey(fr.fn))
			}
			return vals
		}
		if x.mustExit(fr, L, phis, vals) {
			// the loop ends here: the path goes on with what it knows
			return vals
		}
		x.backEdge(lr, phis, vals)
		panic(abortPath{"cut"})
	}
	key := x.loopKey(fr, L)
	lr := &LoopRun{key: key}
	fr.loops[L.header] = lr
	if x.con != nil && x.con.Loop != nil {
		if sp := x.con.Loop(x, fr, L, phis, vals); sp != nil {
			lr.spec = sp
			x.cutUsed = true
			return sp.Enter(x, vals)
		}
	}
	g := x.guesses[key]
	if g == nil {
		g = &LoopGuess{phis: map[int]*Guess{}, mem: map[string]*Guess{}, off: map[int]bool{}, fills: map[int]*elemFill{}}
		x.guesses[key] = g
	}
	lr.g = g
	if g.mode != lmCut {
		lr.est = x.st.clone()
		return vals
	}
	x.cutUsed = true
	out := x.cutHeader(lr, phis, vals)
	x.guardFact(fr, L, lr, phis, out)
	return out
}

// mustExit: with these values the tests at the head of the loop all lead out of it, before the loop does
// anything else.
func (x *X) mustExit(fr *Frame, L *Loop, phis []*ssa.Phi, vals []Value) bool {
	type saved struct {
		v   ssa.Value
		val Value
		ok  bool
	}
	var undo []saved
	set := func(v ssa.Value, val Value) {
		old, ok := fr.env[v]
		undo = append(undo, saved{v, old, ok})
		fr.env[v] = val
	}
	defer func() {
		for i := len(undo) - 1; i >= 0; i-- {
			if u := undo[i]; u.ok {
				fr.env[u.v] = u.val
			} else {
				delete(fr.env, u.v)
			}
		}
	}()
	for i, p := range phis {
		set(p, vals[i])
	}
	steps := 0
	var walk func(blk, pred *ssa.BasicBlock) bool
	walk = func(blk, pred *ssa.BasicBlock) bool {
		if !L.body[blk] {
			return true
		}
		if steps++; steps > 12 || pred != nil && fr.info.headers[blk] != nil {
			return false
		}
		pi := -1
		for i, p := range blk.Preds {
			if p == pred {
				pi = i
			}
		}
		for _, in := range blk.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				if pred != nil {
					set(in, x.eval(fr, in.Edges[pi]))
				}
			case *ssa.BinOp:
				switch in.Op {
				case token.QUO, token.REM, token.SHL, token.SHR:
					return false
				}
				set(in, x.instr(fr, in, in))
			case *ssa.UnOp:
				if _, cell := in.X.(*ssa.Alloc); in.Op == token.ARROW || in.Op == token.MUL && !cell {
					return false
				}
				set(in, x.instr(fr, in, in))
			case *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract, *ssa.Field:
				set(in.(ssa.Value), x.instr(fr, in.(ssa.Value), in))
			case *ssa.Call:
				b, ok := in.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "len" && b.Name() != "cap" {
					return false
				}
				set(in, x.instr(fr, in, in))
			case *ssa.Jump:
				return walk(blk.Succs[0], blk)
			case *ssa.If:
				c, ok := x.eval(fr, in.Cond).(*Term)
				if !ok {
					return false
				}
				switch x.decide(c) {
				case 1:
					return walk(blk.Succs[0], blk)
				case -1:
					return walk(blk.Succs[1], blk)
				}
				return walk(blk.Succs[0], blk) && walk(blk.Succs[1], blk)
			default:
				return false
			}
		}
		return false
	}
	return walk(L.header, nil)
}

// guardFact: a later iteration is only reached when the test at the header held in the one before.
func (x *X) guardFact(fr *Frame, L *Loop, lr *LoopRun, phis []*ssa.Phi, out []Value) {
	tb := x.tb
	h := L.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || L.body[h.Succs[0]] == L.body[h.Succs[1]] {
		return
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Block() != h {
		return
	}
	if w, _, isInt := intInfo(cond.X.Type()); !isInt || w == 0 {
		return
	}
	var val func(v ssa.Value) (*Term, bool)
	val = func(v ssa.Value) (*Term, bool) {
		switch v := v.(type) {
		case *ssa.Const:
			t, ok := x.eval(fr, v).(*Term)
			return t, ok
		case *ssa.Phi:
			if v.Block() == h {
				for i, p := range phis {
					if p == v && lr.g.phis[i] != nil {
						t, ok := out[i].(*Term)
						switch lr.g.phis[i].cls {
						case "affine":
							return tb.Sub(t, lr.g.phis[i].step), ok
						case "same":
							return t, ok
						}
						return nil, false
					}
				}
				return nil, false
			}
		case *ssa.BinOp:
			if v.Block() == h && (v.Op == token.ADD || v.Op == token.SUB) {
				a, ok1 := val(v.X)
				b, ok2 := val(v.Y)
				if !ok1 || !ok2 {
					return nil, false
				}
				t, ok := x.binop(v.Op, a, b, v.X.Type(), v.Y.Type(), v).(*Term)
				return t, ok
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && v.Block() == h && b.Name() == "len" {
				in, isIn := v.Call.Args[0].(ssa.Instruction)
				if isIn && L.body[in.Block()] {
					return nil, false
				}
				switch s := x.eval(fr, v.Call.Args[0]).(type) {
				case SliceVal:
					return s.n, true
				case StrVal:
					return s.n, true
				}
				return nil, false
			}
		}
		if in, ok := v.(ssa.Instruction); ok && L.body[in.Block()] {
			return nil, false
		}
		t, ok := x.eval(fr, v).(*Term)
		return t, ok
	}
	a, ok1 := val(cond.X)
	b, ok2 := val(cond.Y)
	if !ok1 || !ok2 {
		return
	}
	t, ok := x.binop(cond.Op, a, b, cond.X.Type(), cond.Y.Type(), cond).(*Term)
	if !ok {
		return
	}
	if !L.body[h.Succs[0]] {
		t = tb.Not(t)
	}
	x.assume(tb.Or(tb.Eq(lr.k, x.c64(0)), t))
	if t.sort.K == KBool && a.sort.W == 64 {
		// the linear consequence for a counter that goes up by one, which is what most proofs need
		if up := tb.Ule(tb.Add(a, x.c64(1)), b); (cond.Op == token.LSS || cond.Op == token.NEQ) && (x.decide(up) == 1 || x.inRangeProve(up)) {
			x.assume(up)
		}
	}
}

func (x *X) cutHeader(lr *LoopRun, phis []*ssa.Phi, vals []Value) []Value {
	tb := x.tb
	g := lr.g
	lr.k = tb.Fresh("k", SBV(64))
	x.assume(tb.Ult(lr.k, tb.BVBig(64, new2(62)))) // no loop runs 2^62 times
	lr.ent = append([]Value(nil), vals...)
	lr.est = x.st.clone()
	lr.cands = x.candList()
	lr.ents = map[string]Value{}
	lr.hdrs = map[string]Value{}
	lr.traceN = len(x.st.trace)
	if g.ghost {
		for i, v := range vals {
			if g.phis[i] == nil && x.con.Ghost.Phis != nil && len(x.con.Ghost.Phis(x, phis[i].Type(), v)) > 0 {
				g.phis[i] = &Guess{cls: "ghost", typ: phis[i].Type()}
			}
			if gs := g.phis[i]; gs != nil && gs.cls == "ghost" && !x.ghostCand(gs, v, v) {
				x.demote(lr, gs, v, v)
			}
		}
		x.con.Ghost.Check(x)
		x.con.Ghost.Head(x)
	}
	// a sticky error decides what the other locations are
	sticky := false
	for i, v := range vals {
		if gs := g.phis[i]; gs != nil && gs.cls == "sticky" {
			sticky = true
			x.stickyHead(lr, v)
		}
	}
	for _, mk := range sortedKeys(g.mem) {
		if g.mem[mk].cls == "sticky" {
			if o, path, ok := x.memLoc(mk); ok {
				sticky = true
				x.stickyHead(lr, x.walkPath(x.st.vals[o.id], path))
			}
		}
	}
	if !sticky || lr.fail == 1 {
		for i, c := range lr.cands {
			if !g.off[i] {
				x.assume(tb.Ule(lr.k, tb.Sub(c.to, c.from)))
				mid := tb.Add(c.from, lr.k)
				x.assume(c.okT(x, c.from, mid))
				x.catFacts(c, lr.k, mid)
			}
		}
	}
	for _, id := range sortedInts(g.fills) {
		if f := g.fills[id]; f != nil && x.st.elems[id] != nil {
			// f.n: what the object holds from f.at on
			x.assume(tb.Ule(lr.k, f.n))
			x.st.elems[id] = &ERope{x.spliceElems(x.st.elems[id].segs, f.at, []ESeg{{vec: f.vec, from: f.from, n: lr.k}})}
		}
	}
	out := make([]Value, len(vals))
	for i, v := range vals {
		gs := g.phis[i]
		if gs == nil {
			gs = &Guess{cls: "same", typ: phis[i].Type()}
			g.phis[i] = gs
		}
		out[i] = x.headVal(lr, gs, v, phis[i].Type(), phis[i].Name())
	}
	for _, mk := range sortedKeys(g.mem) {
		gs := g.mem[mk]
		if strings.HasPrefix(mk, "B") { // whole byte object
			id, _ := strconv.Atoi(mk[1:])
			if _, ok := x.st.bytes[id]; ok {
				x.st.bytes[id] = x.symSeq("loopmem")
			}
			continue
		}
		o, path, ok := x.memLoc(mk)
		if !ok {
			continue
		}
		cur := x.walkPath(x.st.vals[o.id], path)
		lr.ents[mk] = cur
		nv := x.headVal(lr, gs, cur, leafType(o.typ, path), "mem")
		lr.hdrs[mk] = nv
		x.st.vals[o.id] = x.setPath(x.st.vals[o.id], path, nv)
	}
	for i := range out {
		if gs := g.phis[i]; gs.cls == "rv" {
			out[i] = OpaqueVal{tb.App("rv", SRef, out[gs.cand].(IfaceVal).term), vals[i].(OpaqueVal).typ}
		}
	}
	lr.hdr = out
	lr.hst = x.st.clone()
	return out
}

// rvOf: v is the reflection handle of w.
func rvOf(v, w Value) bool {
	o, ok := v.(OpaqueVal)
	i, ok2 := w.(IfaceVal)
	return ok && ok2 && i.term != nil && o.t.op == "app" && o.t.name == "rv" && o.t.args[0] == i.term
}

func leafType(t types.Type, path []int) types.Type {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

// memLoc parses "id/path".
func (x *X) memLoc(mk string) (*Obj, []int, bool) {
	parts := strings.Split(mk, "/")
	id, _ := strconv.Atoi(parts[0])
	o := x.objByID[id]
	if o == nil || x.st.vals[id] == nil {
		return nil, nil, false
	}
	var path []int
	for _, p := range parts[1:] {
		n, _ := strconv.Atoi(p)
		path = append(path, n)
	}
	return o, path, true
}

func (x *X) candList() []*Cat {
	return x.cands
}

func (x *X) headVal(lr *LoopRun, gs *Guess, v Value, t types.Type, hint string) Value {
	tb := x.tb
	switch gs.cls {
	case "same", "rv":
		return v
	case "step?":
		return tb.Fresh("step", v.(*Term).sort)
	case "rest":
		s := v.(SliceVal)
		d := tb.Mul(gs.step, lr.k)
		x.assume(tb.Ule(d, s.n))
		s.off, s.n, s.cap = tb.Add(s.off, d), tb.Sub(s.n, d), tb.Sub(s.cap, d)
		return s
	case "affine":
		tm := v.(*Term)
		return tb.Add(tm, tb.Mul(gs.step, tb.Conv(lr.k, tm.sort.W, false)))
	case "deref":
		iv := v.(IfaceVal)
		nv := IfaceVal{term: tb.Fresh("deref", SIface)}
		d := tb.Fresh("derefd", SBool)
		x.assume(tb.Implies(tb.Not(d), tb.Eq(nv.term, iv.term)))
		if x.con == nil || x.con.DerefOK == nil {
			x.unsupported("loop follows pointers without an invariant")
		}
		x.assume(tb.Implies(d, x.con.DerefOK(x, iv.term)))
		x.derefs[iv.term] = derefInfo{nv.term, d}
		return nv
	case "sticky":
		iv := v.(IfaceVal)
		if lr.fail == 2 && x.provablyNil(iv) {
			e := IfaceVal{term: tb.Fresh("err", SIface)}
			x.assume(tb.Not(x.isNil(e)))
			return e
		}
		return v
	case "elems":
		s := v.(SliceVal)
		f := gs.fill
		n := tb.Add(s.n, lr.k)
		cp := tb.Fresh("cap", SBV(64))
		x.assume(tb.Ule(n, cp))
		x.boundLen(cp, 46)
		o := x.newObj('e', types.NewSlice(s.elem), "loop")
		segs := append(append([]ESeg(nil), x.subElems(s.obj, s.off, s.n)...), ESeg{vec: f.vec, from: f.from, n: lr.k}, ESeg{zero: true, from: x.c64(0), n: tb.Sub(cp, n)})
		x.st.elems[o.id] = &ERope{segs}
		return SliceVal{obj: o, off: x.c64(0), n: n, cap: cp, isnil: tb.And(s.isnil, tb.Eq(lr.k, x.c64(0))), elem: s.elem}
	case "cand":
		if lr.fail == 2 {
			break
		}
		s := v.(SliceVal)
		c := lr.cands[gs.cand]
		x.assume(tb.Ule(lr.k, tb.Sub(c.to, c.from)))
		mid := tb.Add(c.from, lr.k)
		x.assume(c.okT(x, c.from, mid))
		x.catFacts(c, lr.k, mid)
		return x.appendLike(s, c.piece(x, c.from, mid), "loop")
	}
	if gs.cls == "ghost" {
		if cs := x.con.Ghost.Phis(x, t, v); gs.pc < len(cs) {
			return cs[gs.pc]
		}
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if x.choose(2) == 0 {
			return PtrVal{typ: pt.Elem()}
		}
		p, ok := x.symRes(t, "loop_"+hint).(PtrVal)
		if !ok || p.obj == nil {
			x.unsupported("loop variable %s", t)
		}
		p.obj.fresh = true
		return p
	}
	nv := x.symRes(t, "loop_"+hint)
	return nv
}

// catFacts: the definition of the concatenation at position mid.
func (x *X) catFacts(c *Cat, k, mid *Term) {
	tb := x.tb
	e := c.body(x, mid)
	ok := x.okOf(e)
	x.assume(tb.Implies(tb.And(c.okT(x, c.from, c.to), tb.Ult(k, tb.Sub(c.to, c.from))), ok))
}

// demote moves a guess to the next class and restarts the verification of the function.
func (x *X) demote(lr *LoopRun, gs *Guess, hdr, back Value) {
	debugf("demote %s %s", lr.key, gs.cls)
	switch gs.cls {
	case "same", "ghost":
		if gs.cls == "ghost" {
			gs.pc++
			if gs.pc >= len(x.con.Ghost.Phis(x, gs.typ, hdr)) {
				gs.cls = "same"
			}
			x.restart()
		}
		switch h := hdr.(type) {
		case *Term:
			if h.sort.K == KBV {
				gs.cls = "step?"
				x.restart()
			}
		case SliceVal:
			if isByteType(h.elem) && len(lr.cands) > 0 {
				gs.cls = "cand"
				gs.cand = 0
				x.restart()
			}
			if b, ok := back.(SliceVal); ok && !isByteType(h.elem) && (h.obj == nil || h.obj.fresh) {
				if f := x.appendedElem(lr, h, b); f != nil {
					gs.cls = "elems"
					gs.fill = f
					x.restart()
				}
			}
		case IfaceVal:
			if isErrType(gs.typ) && len(lr.cands) > 0 {
				gs.cls = "sticky"
				x.restart()
			}
			if b, ok := back.(IfaceVal); ok && b.term != nil && b.term.op == "app" && b.term.name == "iface_deref" && h.term != nil {
				gs.cls = "deref"
				x.restart()
			}
		}
	case "step?":
		d := x.tb.Sub(back.(*Term), hdr.(*Term))
		if d.IsConst() {
			gs.cls = "affine"
			gs.step = d
			x.restart()
		}
	case "cand":
		gs.cand++
		if gs.cand < len(lr.cands) {
			x.restart()
		}
	case "havoc":
		x.unsupported("loop invariant of an arbitrary value refused")
	}
	gs.cls = "havoc"
	x.restart()
}

// consumed: back is hdr without its first elements, a constant number of them.
func (x *X) consumed(hdr, back Value) *Term {
	h, ok1 := hdr.(SliceVal)
	b, ok2 := back.(SliceVal)
	if !ok1 || !ok2 || h.obj == nil || h.obj != b.obj || h.isnil != b.isnil && x.decide(x.tb.Eq(h.isnil, b.isnil)) != 1 {
		return nil
	}
	d := x.norm(x.tb.Sub(b.off, h.off))
	if !d.IsConst() || d.val.Sign() == 0 || d.val.BitLen() > 32 || !x.sameT(b.n, x.tb.Sub(h.n, d)) || !x.sameT(b.cap, x.tb.Sub(h.cap, d)) {
		return nil
	}
	return d
}

func (x *X) backEdge(lr *LoopRun, phis []*ssa.Phi, vals []Value) {
	if lr.g.ghost {
		x.con.Ghost.Check(x)
	} else if x.ghostChanged(lr.hst) {
		if x.con == nil || x.con.Ghost == nil {
			x.unsupported("loop changes ghost state and needs an invariant")
		}
		lr.g.ghost = true
		lr.g.phis = map[int]*Guess{}
		x.restart()
	}
	for i, v := range vals {
		gs := lr.g.phis[i]
		if gs == nil || gs.cls != "same" && gs.cls != "rv" {
			continue
		}
		if gs.cls == "rv" {
			if !rvOf(v, vals[gs.cand]) {
				gs.cls = "havoc"
				x.restart()
			}
			continue
		}
		for j, w := range vals {
			if rvOf(v, w) && rvOf(lr.ent[i], lr.ent[j]) && !x.sameValue(lr.hdr[i], v) {
				gs.cls, gs.cand = "rv", j
				x.restart()
			}
		}
	}
	// a list that loses its first elements is consumed in step with the iterations
	for i, v := range vals {
		if gs := lr.g.phis[i]; gs != nil && gs.cls == "same" {
			if d := x.consumed(lr.hdr[i], v); d != nil {
				gs.cls, gs.step = "rest", d
				x.restart()
			}
		}
	}
	// an error that is kept decides what the rest must be
	for i, v := range vals {
		if gs := lr.g.phis[i]; gs != nil && gs.cls == "same" && isErrType(gs.typ) && !x.sameValue(lr.hdr[i], v) {
			x.demote(lr, gs, lr.hdr[i], v)
		}
	}
	for _, id := range sortedInts(lr.est.vals) {
		x.errCells(lr, id)
	}
	x.stickyBack(lr, vals)
	// counters first: the other invariants are stated in terms of the iteration number
	for pass := 0; pass < 2; pass++ {
		for i, v := range vals {
			if _, num := v.(*Term); num == (pass == 0) {
				x.checkBack(lr, lr.g.phis[i], lr.ent[i], lr.hdr[i], v, "loop variable "+phis[i].Comment)
			}
		}
	}
	// memory cells
	for pass := 0; pass < 2; pass++ {
		for _, id := range sortedInts(lr.est.vals) {
			hv := lr.hst.vals[id]
			nv := x.st.vals[id]
			var diff func(a, b Value, path string)
			diff = func(a, b Value, path string) {
				mk := itoa(id) + path
				if _, num := b.(*Term); pass == 0 && !num && !isStructured(b) || pass == 1 && num {
					return
				}
				if gs := lr.g.mem[mk]; gs != nil && lr.hdrs[mk] != nil {
					x.checkBack(lr, gs, lr.ents[mk], lr.hdrs[mk], b, "memory cell")
					return
				}
				if sa, ok := a.(StructVal); ok {
					if sb, ok := b.(StructVal); ok && len(sa.fields) == len(sb.fields) {
						for i := range sa.fields {
							diff(sa.fields[i], sb.fields[i], path+"/"+itoa(i))
						}
						return
					}
				}
				if sa, ok := a.(ArrVal); ok {
					if sb, ok := b.(ArrVal); ok && len(sa.elems) == len(sb.elems) {
						for i := range sa.elems {
							diff(sa.elems[i], sb.elems[i], path+"/"+itoa(i))
						}
						return
					}
				}
				if x.sameValue(a, b) {
					return
				}
				g := &Guess{cls: "same"}
				if o, pp, ok := x.memLoc(mk); ok {
					g.typ = leafType(o.typ, pp)
				}
				lr.g.mem[mk] = g
				x.demote(lr, g, a, b)
			}
			diff(hv, nv, "")
		}
	}
	for _, id := range sortedInts(lr.est.bytes) {
		hs, ns := lr.hst.bytes[id], x.st.bytes[id]
		if hs == ns || lr.g.mem["B"+itoa(id)] != nil {
			continue
		}
		if x.withinHavoc(id, hs, ns) {
			continue
		}
		lr.g.mem["B"+itoa(id)] = &Guess{cls: "havoc"}
		x.restart()
	}
	for _, id := range sortedInts(lr.est.elems) {
		x.fillBack(lr, id)
	}
	if !lr.failed {
		for i, c := range lr.cands {
			if lr.g.off[i] {
				continue
			}
			e := c.body(x, x.tb.Add(c.from, lr.k))
			if !x.inRangeProve(x.tb.Ult(lr.k, x.tb.Sub(c.to, c.from))) || !x.inRangeProve(x.okOf(e)) {
				lr.g.off[i] = true
				x.restart()
			}
		}
	}
	if len(x.st.trace) != lr.traceN {
		x.unsupported("loop with observable events needs an invariant")
	}
}

// ghostCand: v is the guessed function of the ghost state.
func (x *X) ghostCand(gs *Guess, ent, v Value) bool {
	cs := x.con.Ghost.Phis(x, gs.typ, ent)
	if gs.pc >= len(cs) {
		return false
	}
	if s, ok := cs[gs.pc].(SliceVal); ok && !isByteType(s.elem) {
		b, ok := v.(SliceVal)
		return ok && x.sameElems(s, b)
	}
	return x.sameValue(cs[gs.pc], v)
}

func (x *X) ghostChanged(since *State) bool {
	for k, v := range since.ghost {
		if !x.sameValue(v, x.st.ghost[k]) {
			return true
		}
	}
	return len(since.ghost) != len(x.st.ghost)
}

// withinHavoc: the writes since the header only touch what the header already left arbitrary
// (the topmost layer of the header's content is an arbitrary or unspecified tail).
func (x *X) withinHavoc(id int, hs, ns Seq) bool {
	hl, ok := hs.(*LogSeq)
	if !ok {
		return false
	}
	if !isArbitrary(hl.src) {
		return false
	}
	for s := ns; s != hs; {
		l, ok := s.(*LogSeq)
		if !ok {
			return false
		}
		// [l.off, l.off+l.n) inside [hl.off, hl.off+hl.n)
		tb := x.tb
		d := tb.Sub(l.off, hl.off)
		c := tb.Or(tb.Eq(l.n, x.c64(0)), tb.And(tb.Ult(d, hl.n), tb.Ule(l.n, hl.n)))
		if x.decide(c) != 1 {
			return false
		}
		s = l.prev
	}
	return true
}

func isArbitrary(s Seq) bool {
	y, ok := s.(*SymSeq)
	return ok && len(y.args) == 0 && strings.HasPrefix(y.name, "hv!")
}

func (x *X) checkBack(lr *LoopRun, gs *Guess, ent, hdr, back Value, what string) {
	tb := x.tb
	switch gs.cls {
	case "rv":
		return
	case "havoc":
		if s, ok := back.(SliceVal); ok && s.obj != nil && s.obj.kind == 'b' {
			// an arbitrary fresh slice stands for it: it must not be memory that others see
			if !s.obj.fresh {
				x.unsupported("loop keeps an aliased buffer without an invariant")
			}
		}
		if p, ok := back.(PtrVal); ok && p.obj != nil && (!p.obj.fresh || len(p.path) > 0 || p.idx != nil) {
			x.unsupported("loop keeps a pointer without an invariant")
		}
		return
	case "same":
		if !x.sameValue(hdr, back) {
			x.demote(lr, gs, hdr, back)
		}
	case "ghost":
		same := x.ghostCand(gs, ent, back)
		if !same {
			x.demote(lr, gs, hdr, back)
		}
	case "step?":
		x.demote(lr, gs, hdr, back)
	case "rest":
		e := ent.(SliceVal)
		d := tb.Mul(gs.step, tb.Add(lr.k, x.c64(1)))
		if c := x.consumed(hdr, back); c != gs.step || !x.inRangeProve(tb.Ule(d, e.n)) {
			gs.cls = "havoc"
			x.restart()
		}
	case "affine":
		want := tb.Add(hdr.(*Term), gs.step)
		if want != back.(*Term) {
			if ok, _ := x.prove(tb.Eq(want, back.(*Term))); !ok {
				x.demote(lr, gs, hdr, back)
			}
		}
	case "deref":
		b, ok := back.(IfaceVal)
		h := hdr.(IfaceVal)
		if !ok || b.term == nil || b.term != tb.App("iface_deref", SIface, h.term) {
			x.demote(lr, gs, hdr, back)
		}
		x.oblige("a pointer is followed only when the value is encoded as what it points to", x.con.DerefOK(x, h.term))
	case "sticky":
		if !lr.failed && !x.provablyNil(back) {
			x.demote(lr, gs, hdr, back)
		}
		if lr.failed && !x.inRangeProve(tb.Not(x.isNil(back))) {
			x.demote(lr, gs, hdr, back)
		}
	case "elems":
		b, ok := back.(SliceVal)
		h := hdr.(SliceVal)
		f := gs.fill
		if !ok || b.obj == nil || !b.obj.fresh || !x.sameT(b.n, tb.Add(h.n, x.c64(1))) {
			x.demote(lr, gs, hdr, back)
		}
		if g := x.appendedElem(lr, h, b); g == nil || g.vec != f.vec || !x.sameT(g.from, f.from) {
			x.demote(lr, gs, hdr, back)
		}
	case "cand":
		if lr.failed {
			if s, ok := back.(SliceVal); ok && s.obj != nil && !s.obj.fresh && (ent.(SliceVal).obj == nil || s.obj.fam != ent.(SliceVal).obj.fam) {
				x.unsupported("loop keeps an aliased buffer without an invariant")
			}
			return
		}
		c := lr.cands[gs.cand]
		s, ok := back.(SliceVal)
		if !ok {
			x.demote(lr, gs, hdr, back)
		}
		mid := tb.Add(c.from, lr.k)
		e := c.body(x, mid)
		base := ent.(SliceVal)
		bseq := Seq(ZeroSeq{})
		if base.obj != nil {
			bseq = x.view(lr.est.bytes[base.obj.id], base.off)
		}
		good := x.inRangeProve(tb.Ult(lr.k, tb.Sub(c.to, c.from))) && x.inRangeProve(x.okOf(e))
		good = good && (s.obj == nil && base.obj == nil || s.obj != nil && (s.obj.fresh || base.obj != nil && s.obj.fam == base.obj.fam))
		if good && base.obj != nil && s.obj.fam == base.obj.fam {
			good = x.inRangeProve(tb.Eq(s.off, base.off))
		}
		if good {
			goals := x.ropeGoals(x.sliceSeq(s), s.n, cat([]Piece{{seq: bseq, n: base.n, lab: "buffer before the loop"}}, c.piece(x, c.from, mid), e.r))
			for _, gl := range goals {
				if !x.proveGoal(gl, what+" gains exactly item k of "+c.name+": ") {
					good = false
					break
				}
			}
		}
		if !good {
			x.demote(lr, gs, hdr, back)
		}
	}
}

func (x *X) inRangeProve(t *Term) bool {
	ok, _ := x.prove(t)
	return ok
}

// proveGoal proves a goal that may fail without being a violation; successes count as obligations.
func (x *X) proveGoal(g ropeGoal, pre string) bool {
	ok, out := x.prove(g.t)
	if ok && x.mute == 0 && out.Solver != "cached" {
		x.count(out)
	}
	_ = pre
	return ok
}

func sortedInts[V any](m map[int]V) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j-1] > ks[j]; j-- {
			ks[j-1], ks[j] = ks[j], ks[j-1]
		}
	}
	return ks
}

// sameValue: syntactic or provable equality of two values.
func (x *X) sameValue(a, b Value) bool {
	switch p := a.(type) {
	case nil:
		return b == nil
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			return false
		}
		if p == q {
			return true
		}
		return p.sort == q.sort && x.inRangeProve(x.tb.Eq(p, q))
	case SliceVal:
		q, ok := b.(SliceVal)
		if !ok {
			return false
		}
		if p.obj != q.obj {
			return false
		}
		return x.sameT(p.off, q.off) && x.sameT(p.n, q.n) && x.sameT(p.cap, q.cap) && x.sameT(p.isnil, q.isnil)
	case PtrVal:
		q, ok := b.(PtrVal)
		return ok && p.obj == q.obj && p.idx == q.idx && fmt.Sprint(p.path) == fmt.Sprint(q.path)
	case IfaceVal:
		q, ok := b.(IfaceVal)
		if !ok {
			return false
		}
		if p.isNilConst() && q.isNilConst() {
			return true
		}
		if p.isNilConst() {
			return x.inRangeProve(x.isNil(q))
		}
		if q.isNilConst() {
			return x.inRangeProve(x.isNil(p))
		}
		if p.term != nil && q.term != nil {
			return x.sameT(p.term, q.term)
		}
		return p.term == nil && q.term == nil && types.Identical(p.typ, q.typ) && x.sameValue(p.val, q.val)
	case FuncVal:
		q, ok := b.(FuncVal)
		if !ok || p.fn != q.fn || p.term != q.term || len(p.bind) != len(q.bind) {
			return false
		}
		for i := range p.bind {
			if !x.sameValue(p.bind[i], q.bind[i]) {
				return false
			}
		}
		return true
	case OpaqueVal:
		q, ok := b.(OpaqueVal)
		return ok && x.sameT(p.t, q.t)
	case StrVal:
		q, ok := b.(StrVal)
		return ok && (p.seq == q.seq && x.sameT(p.n, q.n) || p.orig != nil && q.orig != nil && x.sameT(p.orig, q.orig))
	case BArrVal:
		q, ok := b.(BArrVal)
		return ok && p.seq == q.seq && p.n == q.n
	case StructVal:
		q, ok := b.(StructVal)
		if !ok || len(p.fields) != len(q.fields) {
			return false
		}
		for i := range p.fields {
			if !x.sameValue(p.fields[i], q.fields[i]) {
				return false
			}
		}
		return true
	case ArrVal:
		q, ok := b.(ArrVal)
		if !ok || len(p.elems) != len(q.elems) {
			return false
		}
		for i := range p.elems {
			if !x.sameValue(p.elems[i], q.elems[i]) {
				return false
			}
		}
		return true
	case TupleVal:
		q, ok := b.(TupleVal)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !x.sameValue(p[i], q[i]) {
				return false
			}
		}
		return true
	case optState:
		q, ok := b.(optState)
		return ok && p.failed == q.failed && x.sameT(p.k, q.k)
	case netLog:
		q, ok := b.(netLog)
		return ok && p.dl == q.dl && p.wr == q.wr && p.failed == q.failed && x.sameT(p.k, q.k)
	case poolState:
		q, ok := b.(poolState)
		if !ok || p.held != q.held || p.uses != q.uses || p.none != q.none || p.empty != q.empty || p.done != q.done || p.newErr != q.newErr || len(p.own) != len(q.own) || !x.sameT(p.closed, q.closed) {
			return false
		}
		for i := range p.own {
			if p.own[i] != q.own[i] {
				return false
			}
		}
		return true
	case rdState:
		q, ok := b.(rdState)
		return ok && x.sameT(p.pos, q.pos)
	case ConstMap: // never updated
		q, ok := b.(ConstMap)
		return ok && len(p.keys) == len(q.keys)
	case IterVal:
		q, ok := b.(IterVal)
		return ok && p.obj == q.obj
	}
	return false
}

func (x *X) sameT(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.sort != b.sort {
		return false
	}
	return x.inRangeProve(x.tb.Eq(a, b))
}

func isStructured(v Value) bool {
	switch v.(type) {
	case StructVal, ArrVal:
		return true
	}
	return false
}

func isErrType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// errCells demotes changed error cells before anything else is looked at.
func (x *X) errCells(lr *LoopRun, id int) {
	o := x.objByID[id]
	if o == nil {
		return
	}
	var diff func(a, b Value, path string)
	diff = func(a, b Value, path string) {
		mk := itoa(id) + path
		if lr.g.mem[mk] != nil {
			return
		}
		if sa, ok := a.(StructVal); ok {
			if sb, ok := b.(StructVal); ok && len(sa.fields) == len(sb.fields) {
				for i := range sa.fields {
					diff(sa.fields[i], sb.fields[i], path+"/"+itoa(i))
				}
			}
			return
		}
		_, pp, ok := x.memLoc(mk)
		if _, isI := a.(IfaceVal); ok && isI && isErrType(leafType(o.typ, pp)) && !x.sameValue(a, b) {
			g := &Guess{cls: "same", typ: leafType(o.typ, pp)}
			lr.g.mem[mk] = g
			x.demote(lr, g, a, b)
		}
	}
	diff(lr.hst.vals[id], x.st.vals[id], "")
}

func (x *X) provablyNil(v Value) bool {
	iv, ok := v.(IfaceVal)
	return ok && (iv.isNilConst() || x.inRangeProve(x.isNil(iv)))
}

// allOK: every item of every candidate is fine.
func (x *X) allOK(cs []*Cat) *Term {
	t := x.tb.True()
	for _, c := range cs {
		t = x.tb.And(t, c.okT(x, c.from, c.to))
	}
	return t
}

// stickyHead: an error kept across iterations. Either nothing has failed so far, or some item of the
// candidates fails.
func (x *X) stickyHead(lr *LoopRun, v Value) {
	if lr.fail != 0 {
		return
	}
	if !x.provablyNil(v) {
		lr.fail = 2 // failed before the loop
		return
	}
	lr.fail = 1
	if x.choose(2) == 1 {
		lr.fail = 2
		x.assume(x.tb.Not(x.allOK(lr.cands)))
	}
}

// stickyBack: is the state at the back edge a failed one?
func (x *X) stickyBack(lr *LoopRun, vals []Value) {
	if lr.fail == 0 {
		return
	}
	if lr.fail == 2 {
		lr.failed = true
		return
	}
	if x.inRangeProve(x.tb.Not(x.allOK(lr.cands))) {
		lr.failed = true
	}
}

// appendedElem: b is h and one more element, which is element k+c of a vector.
func (x *X) appendedElem(lr *LoopRun, h, b SliceVal) *elemFill {
	if b.obj == nil || !x.sameT(b.n, x.tb.Add(h.n, x.c64(1))) {
		return nil
	}
	segs := x.subElems(b.obj, b.off, b.n)
	if len(segs) == 0 || segs[len(segs)-1].n != nil {
		return nil
	}
	f := x.fillOf(lr, nil, segs[len(segs)-1].one)
	if f == nil {
		return nil
	}
	front := SliceVal{obj: b.obj, off: b.off, n: h.n, elem: b.elem}
	if h.obj == nil {
		if !x.sameT(h.n, x.c64(0)) {
			return nil
		}
		return f
	}
	if !x.sameElems(SliceVal{obj: h.obj, off: h.off, n: h.n, elem: h.elem}, front) {
		return nil
	}
	return f
}

// fillOf: v is element (from + k) of a vector, stored at index at + k.
func (x *X) fillOf(lr *LoopRun, idx *Term, v Value) *elemFill {
	t := elemTerm(v)
	if t == nil || t.op != "app" || !strings.HasPrefix(t.name, "elem_") {
		return nil
	}
	f := &elemFill{vec: t.args[0], from: x.tb.Sub(t.args[1], lr.k)}
	if idx != nil {
		f.at = x.tb.Sub(idx, lr.k)
	}
	if mentions(f.from, lr.k) || f.at != nil && mentions(f.at, lr.k) || mentions(f.vec, lr.k) {
		return nil
	}
	return f
}

func elemTerm(v Value) *Term {
	switch v := v.(type) {
	case IfaceVal:
		return v.term
	case StrVal:
		return v.orig
	case FuncVal:
		return v.term
	case SliceVal:
		return v.orig
	case *Term:
		return v
	}
	return nil
}

func mentions(t, k *Term) bool {
	if t == k {
		return true
	}
	for _, a := range t.args {
		if mentions(a, k) {
			return true
		}
	}
	return false
}

// fillBack checks the elements of an object at the back edge.
func (x *X) fillBack(lr *LoopRun, id int) {
	tb := x.tb
	if lr.g.fills[id] == nil {
		if x.st.elems[id] == lr.hst.elems[id] {
			return
		}
		w := x.elemWrites[id]
		o := x.objByID[id]
		if w == nil || o == nil || !o.fresh {
			x.unsupported("loop changes the elements of an existing slice")
		}
		f := x.fillOf(lr, w.idx, w.v)
		if f == nil {
			x.unsupported("loop changes the elements of an existing slice")
		}
		total := x.c64(0)
		for _, s := range lr.est.elems[id].segs {
			total = tb.Add(total, x.segLen(s))
		}
		f.n = tb.Sub(total, f.at)
		lr.g.fills[id] = f
		x.restart()
	}
	f := lr.g.fills[id]
	want := x.newObj('e', x.objByID[id].typ, "want")
	k1 := tb.Add(lr.k, x.c64(1))
	if !x.inRangeProve(tb.Ule(k1, f.n)) {
		x.unsupported("loop fills the elements of a slice in a way that has no invariant")
	}
	x.st.elems[want.id] = &ERope{x.spliceElems(lr.est.elems[id].segs, f.at, []ESeg{{vec: f.vec, from: f.from, n: k1}})}
	total := tb.Add(f.at, f.n)
	z := x.c64(0)
	if !x.sameElems(SliceVal{obj: want, off: z, n: total}, SliceVal{obj: x.objByID[id], off: z, n: total}) {
		x.unsupported("loop fills the elements of a slice in a way that has no invariant")
	}
}
