package main

// Verification of one function against its contract: all paths, all obligations.

import (
	"fmt"
	"go/types"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnReport struct {
	Key         string         `json:"function"`
	Obls        int            `json:"obligations_discharged"`
	BySolver    map[string]int `json:"by_backend"`
	Paths       int            `json:"paths"`
	Failed      []*Obl         `json:"failed,omitempty"`
	Unsupported string         `json:"unsupported,omitempty"`
	Vacuous     string         `json:"vacuous,omitempty"`
	Secs        float64        `json:"secs"`
	MaxSecs     float64        `json:"slowest_obligation_secs"`
	Used        []string       `json:"contracts_used,omitempty"`
	Inlined     []string       `json:"inlined,omitempty"`
	Externs     []string       `json:"externs,omitempty"`
	Helper      bool           `json:"helper,omitempty"`
}

func (r *FnReport) ok() bool { return len(r.Failed) == 0 && r.Unsupported == "" && r.Vacuous == "" }

func (x *X) resetPath() {
	x.tb.fresh = map[string]int{}
	x.st = newState()
	x.nextObj, x.nextFam = 0, 0
	x.guards = map[int][]guardFn{}
	x.globals = map[*ssa.Global]*Obj{}
	x.termObjs = map[string]*Obj{}
	x.objByID = map[int]*Obj{}
	x.elemWrites = nil
	x.derefs = map[*Term]derefInfo{}
	x.stack = nil
	x.depth = 0
	x.steps = 0
	x.pos = 0
	x.entry = nil
	x.posNote = ""
	x.cands = nil
	x.onEvent = nil
	x.onStore = nil
	x.onLoad = nil
	x.ghostData = map[string]any{}
	x.vals = nil
	x.atOracle = nil
}

// explore runs all paths; returns "restart", "unsupported: ..", "fail" or "".
func (x *X) explore(body func()) (status string) {
	x.script = nil
	for {
		st := x.onePath(body)
		if debug {
			if st != "" {
				debugf("path %d: %q %s", x.paths, st, x.posNote)
			}
		}
		if st != "" {
			return st
		}
		x.paths++
		if x.paths > 20000 {
			return "unsupported: more than 20000 paths"
		}
		if !x.deadline.IsZero() && time.Now().After(x.deadline) {
			return "unsupported: time budget of the function exhausted"
		}
		x.script = x.script[:min(len(x.script), max(x.pos, 0))]
		if !x.nextScript(0) {
			return ""
		}
	}
}

func (x *X) onePath(body func()) (status string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case abortPath:
				status = ""
			case unsupported:
				status = "unsupported: " + e.msg + x.where()
			case failFast:
				status = "fail"
			case restartVerify:
				status = "restart"
			case targetPanic:
				status = "unsupported: internal: uncaught target panic"
			default:
				if debug {
					fmt.Println(string(rdebug.Stack()))
				}
				status = fmt.Sprintf("unsupported: internal error: %v %s", r, x.where())
			}
		}
	}()
	x.resetPath()
	body()
	return ""
}

// verifyFunc verifies the function against its contract, in con.Shards parts side by side.
func (e *Engine) verifyFunc(fn *ssa.Function, con *Contract) *FnReport {
	if con.Shards < 2 {
		return e.verifyShard(fn, con, 0)
	}
	reps := make([]*FnReport, con.Shards)
	var wg sync.WaitGroup
	for i := range reps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			reps[i] = e.verifyShard(fn, con, i)
		}()
	}
	wg.Wait()
	r := reps[0]
	union := func(a, b []string) []string {
		m := map[string]bool{}
		for _, s := range append(append([]string(nil), a...), b...) {
			m[s] = true
		}
		return sortedKeys(m)
	}
	for _, q := range reps[1:] {
		r.Obls += q.Obls
		r.Paths += q.Paths
		for k, v := range q.BySolver {
			r.BySolver[k] += v
		}
		r.Failed = append(r.Failed, q.Failed...)
		if r.Unsupported == "" {
			r.Unsupported = q.Unsupported
		}
		if r.Vacuous == "" {
			r.Vacuous = q.Vacuous
		}
		r.Secs = max(r.Secs, q.Secs)
		r.MaxSecs = max(r.MaxSecs, q.MaxSecs)
		r.Used, r.Inlined, r.Externs = union(r.Used, q.Used), union(r.Inlined, q.Inlined), union(r.Externs, q.Externs)
	}
	return r
}

func (e *Engine) verifyShard(fn *ssa.Function, con *Contract, shard int) *FnReport {
	t0 := time.Now()
	x := e.newX(fn, con)
	x.shard = shard
	x.deadline = t0.Add(e.fnBudget)
	rep := &FnReport{Key: con.Key, Helper: con.Helper && len(con.Props) == 0}
	status := ""
	x.mute = 1
	for n := 0; ; n++ {
		x.completed = 0
		x.paths = 0
		x.cutUsed = false
		status = x.explore(func() { x.verifyPath() })
		if status == "restart" && n < 80 {
			continue
		}
		if strings.HasPrefix(status, "unsupported") || status == "restart" {
			break
		}
		if x.mute > 0 {
			// a run with the final guesses, obligations on
			x.mute = 0
			x.failed = nil
			x.nOK = 0
			x.bySolver = map[string]int{}
			x.dcacheProved()
			status = ""
			continue
		}
		break
	}
	rep.Obls = x.nOK
	rep.BySolver = x.bySolver
	rep.Paths = x.paths
	rep.Failed = x.failed
	rep.Secs = time.Since(t0).Seconds()
	rep.MaxSecs = x.maxSecs
	rep.Used = sortedKeys(x.used)
	rep.Inlined = sortedKeys(x.inlined)
	rep.Externs = sortedKeys(x.externs)
	if strings.HasPrefix(status, "unsupported") || status == "restart" {
		rep.Unsupported = strings.TrimPrefix(status, "unsupported: ")
		if status == "restart" {
			rep.Unsupported = "loop invariant inference did not settle"
		}
	}
	if rep.ok() && x.completed == 0 {
		rep.Vacuous = "no execution path of the function reaches its end under the precondition"
	}
	if rep.ok() && x.nOK == 0 {
		rep.Vacuous = "no obligations were generated"
	}
	return rep
}

// dcacheProved forgets proofs made while muted, so that the final run counts them.
func (x *X) dcacheProved() {
	for k := range x.dcache {
		if k[0] == 'p' {
			delete(x.dcache, k)
		}
	}
}

func (x *X) spareGuard(s SliceVal) {
	if s.obj == nil {
		return
	}
	end := x.tb.Add(s.off, s.n)
	x.guards[s.obj.fam] = append(x.guards[s.obj.fam], func(x *X, off, n *Term) *Term {
		return x.tb.Or(x.tb.Ule(end, off), x.tb.Eq(n, x.c64(0)))
	})
}

func (x *X) regionGuard(r Region) {
	if r.S.obj == nil {
		return
	}
	lo := x.tb.Add(r.S.off, r.From)
	x.guards[r.S.obj.fam] = append(x.guards[r.S.obj.fam], func(x *X, off, n *Term) *Term {
		c := x.tb.Ule(lo, off)
		if r.To != nil {
			c = x.tb.And(c, x.tb.Ule(x.tb.Add(off, n), x.tb.Add(r.S.off, r.To)))
		}
		return x.tb.Or(c, x.tb.Eq(n, x.c64(0)))
	})
}

// defaultGuards: only the spare capacity of the buffer being appended to may be written.
func (x *X) defaultGuards(fn *ssa.Function, args []Value) {
	firstBytes := false
	for _, a := range args {
		switch v := a.(type) {
		case SliceVal:
			if isByteType(v.elem) && !firstBytes {
				firstBytes = true
				x.spareGuard(v)
			}
		case PtrVal:
			if v.obj == nil || v.obj.kind != 's' {
				continue
			}
			if sv, ok := x.st.vals[v.obj.id].(StructVal); ok {
				x.structGuards(sv)
			}
		}
	}
}

func (x *X) structGuards(sv StructVal) {
	st, ok := sv.typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		switch f := sv.fields[i].(type) {
		case SliceVal:
			if isByteType(f.elem) {
				x.spareGuard(f)
			}
		case StructVal:
			x.structGuards(f)
		}
	}
}

func (x *X) verifyPath() {
	con, fn := x.con, x.fn
	var args []Value
	if con.Args != nil {
		args = con.Args(x, fn)
	} else {
		for _, p := range fn.Params {
			args = append(args, x.symVal(p.Type(), p.Name()))
		}
	}
	x.params = args
	x.noteVals(args)
	c := &Ctx{x: x, args: args, fn: fn, sig: fn.Signature}
	if con.Assume != nil {
		for _, p := range con.Assume(c) {
			x.assume(p)
		}
	}
	if con.Pre != nil {
		for _, p := range con.Pre(c) {
			x.assume(p)
		}
	}
	if !x.satWith(x.tb.True()) {
		panic(unsupported{"precondition is not satisfiable"})
	}
	x.unfold = con.Unfold
	if con.Writes != nil {
		for _, r := range con.Writes(c) {
			x.regionGuard(r)
		}
	} else {
		x.defaultGuards(fn, args)
	}
	if con.Begin != nil {
		con.Begin(c)
	}
	if con.Cands != nil {
		x.cands = con.Cands(c)
	}
	x.entry = x.st.clone()
	panicked := false
	var pv Value
	var ret Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					panicked = true
					pv = tp.v
					return
				}
				panic(r)
			}
		}()
		ret = x.execFunc(fn, args, nil)
	}()
	_ = pv
	x.stack = nil
	x.finish(c, ret, panicked)
	x.completed++
}

func (x *X) noteVals(args []Value) {
	var note func(v Value)
	note = func(v Value) {
		switch s := v.(type) {
		case *Term:
			x.vals = append(x.vals, s)
		case StrVal:
			x.vals = append(x.vals, s.n)
		case SliceVal:
			x.vals = append(x.vals, s.n, s.cap)
		case IfaceVal:
			if s.term != nil {
				x.vals = append(x.vals, x.dyn(s.term))
				for _, t := range []types.Type{types.Typ[types.Int64], types.Typ[types.Int], types.Typ[types.Uint64]} {
					x.vals = append(x.vals, x.tb.App("pl_"+typeName(t), SBV(64), s.term))
				}
			}
		case StructVal:
			for _, f := range s.fields {
				note(f)
			}
		case PtrVal:
			if s.obj != nil {
				note(x.st.vals[s.obj.id])
			}
		}
	}
	for _, a := range args {
		note(a)
	}
}

// inEntry evaluates f in the state at entry, under the current path condition.
func (x *X) inEntry(f func()) {
	exit := x.st
	en := x.entry.clone()
	en.pc = exit.pc
	x.st = en
	f()
	exit.pc = x.st.pc
	// objects first met while evaluating the specification
	for id, s := range x.st.bytes {
		if _, ok := exit.bytes[id]; !ok {
			exit.bytes[id] = s
			x.entry.bytes[id] = s
		}
	}
	for id, s := range x.st.elems {
		if _, ok := exit.elems[id]; !ok {
			exit.elems[id] = s
			x.entry.elems[id] = s
		}
	}
	for id, s := range x.st.vals {
		if _, ok := exit.vals[id]; !ok {
			exit.vals[id] = s
			x.entry.vals[id] = s
		}
	}
	for f, os := range x.st.fams {
		if _, ok := exit.fams[f]; !ok {
			exit.fams[f] = os
		}
	}
	x.st = exit
}

func (x *X) finish(c *Ctx, ret Value, panicked bool) {
	con := x.con
	var cs *Case
	x.inEntry(func() {
		if con.Spec == nil {
			cs = &Case{}
			return
		}
		for _, k := range con.Spec(c) {
			k := k
			if k.G == nil || x.branch(k.G) {
				cs = &k
				return
			}
		}
	})
	if cs == nil {
		x.oblige("some behaviour of the contract applies", x.tb.False())
		return
	}
	nm := cs.Name
	if nm != "" {
		nm = "[" + nm + "] "
	}
	if panicked != cs.Panic {
		if panicked {
			x.oblige(nm+"the function does not panic", x.tb.False())
		} else {
			x.oblige(nm+"the function panics", x.tb.False())
		}
		return
	}
	var res []Value
	if !panicked {
		switch r := ret.(type) {
		case TupleVal:
			res = r
		case nil:
		default:
			res = []Value{ret}
		}
		if x.fn != nil && x.fn.Signature.Results().Len() == 1 && len(res) == 0 {
			res = []Value{ret}
		}
		for i, r := range cs.Res {
			x.checkR(r, res[i], fmt.Sprintf("%sresult %d", nm, i+1))
		}
	}
	x.checkMem(cs, nm)
	if cs.Post != nil {
		cs.Post(x, res)
	}
}

func pathKey(id int, path []int) string {
	s := itoa(id)
	for _, p := range path {
		s += "/" + itoa(p)
	}
	return s
}

func (x *X) checkMem(cs *Case, nm string) {
	spec := map[string]RSpec{}
	for _, m := range cs.Mem {
		spec[pathKey(m.P.obj.id, m.P.path)] = m.R
	}
	for _, id := range sortedInts(x.entry.vals) {
		o := x.objByID[id]
		if o == nil || o.fresh && o.name != "arg" {
			continue
		}
		var cmp func(a, b Value, path []int)
		cmp = func(a, b Value, path []int) {
			k := pathKey(id, path)
			if r, ok := spec[k]; ok {
				x.checkR(r, b, nm+"field "+x.cellName(o, path)+" after")
				return
			}
			if sa, ok := a.(StructVal); ok {
				if sb, ok := b.(StructVal); ok && len(sa.fields) == len(sb.fields) {
					for i := range sa.fields {
						cmp(sa.fields[i], sb.fields[i], append(path[:len(path):len(path)], i))
					}
					return
				}
			}
			x.obligeSame(nm+"frame: "+x.cellName(o, path)+" is unchanged", a, b)
		}
		if nv := x.st.vals[id]; nv != nil {
			cmp(x.entry.vals[id], nv, nil)
		}
	}
}

func (x *X) cellName(o *Obj, path []int) string {
	s := o.name
	t := o.typ
	for _, i := range path {
		if st, ok := t.Underlying().(*types.Struct); ok {
			s += "." + st.Field(i).Name()
			t = st.Field(i).Type()
		} else {
			s += "[" + itoa(i) + "]"
		}
	}
	return s
}

func (x *X) obligeSame(name string, a, b Value) {
	if ta, ok := a.(*Term); ok {
		if tb, ok := b.(*Term); ok && ta.sort == tb.sort {
			x.oblige(name, x.tb.Eq(ta, tb))
			return
		}
	}
	if x.sameValue(a, b) {
		x.oblige(name, x.tb.True())
		return
	}
	// equality that is not decided structurally
	if ia, ok := a.(IfaceVal); ok {
		if ib, ok := b.(IfaceVal); ok {
			if t := x.ifaceEqSoft(ia, ib); t != nil {
				x.oblige(name, t)
				return
			}
		}
	}
	if x.mute > 0 {
		panic(abortPath{"muted"})
	}
	x.oblige(name, x.tb.False())
}

func (x *X) ifaceEqSoft(a, b IfaceVal) *Term {
	if a.term != nil && b.term != nil {
		return x.tb.Eq(a.term, b.term)
	}
	if a.isNilConst() {
		return x.isNil(b)
	}
	if b.isNilConst() {
		return x.isNil(a)
	}
	return nil
}

type ropeGoal struct {
	what string
	t    *Term
}

// withHyp evaluates f under an extra hypothesis, deciding range tests by the solver.
func (x *X) withHyp(h *Term, f func() *Term) *Term {
	save := x.st.pc
	old := x.atOracle
	if !h.IsTrue() {
		x.st.pc = append(save[:len(save):len(save)], h)
	}
	x.atOracle = func(c *Term) *Term {
		switch x.decide(c) {
		case 1:
			return x.tb.True()
		case -1:
			return x.tb.False()
		}
		return c
	}
	r := f()
	x.atOracle = old
	x.st.pc = save
	return r
}

func (x *X) ropeGoals(got Seq, gotLen *Term, rope []Piece) []ropeGoal {
	tb := x.tb
	var gs []ropeGoal
	gs = append(gs, ropeGoal{"total length", tb.Eq(gotLen, x.ropeLen(rope))})
	off := x.c64(0)
	for pi, p := range rope {
		if p.any {
			off = tb.Add(off, p.n)
			continue
		}
		what := fmt.Sprintf("part %d (%s)", pi+1, p.lab)
		o := off
		byteEq := func(i int, hyp *Term, b *Term) *Term {
			return x.withHyp(hyp, func() *Term {
				return tb.Eq(got.At(x, tb.Add(o, x.c64(int64(i)))), b)
			})
		}
		small := -1
		switch s := p.seq.(type) {
		case *BytesSeq:
			small = len(s.b)
		case *ConstSeq:
			small = len(s.s)
		case *VarintSeq:
			small = 10
		}
		if p.n.IsConst() && p.n.val.IsInt64() && p.n.val.Int64() <= 96 && (small < 0 || p.n.val.Int64() < int64(small)) {
			small = int(p.n.val.Int64())
		}
		if small >= 0 {
			var cs []*Term
			for i := 0; i < small; i++ {
				in := tb.Ult(x.c64(int64(i)), p.n)
				if in.IsFalse() || !in.IsTrue() && x.fastDecide(in) == -1 {
					break
				}
				cs = append(cs, tb.Implies(in, byteEq(i, in, p.seq.At(x, x.c64(int64(i))))))
			}
			gs = append(gs, ropeGoal{what, tb.And(cs...)})
		} else {
			t := tb.Fresh("pos", SBV(64))
			in := tb.Ult(t, p.n)
			eq := x.withHyp(in, func() *Term {
				return tb.Eq(got.At(x, tb.Add(o, t)), p.seq.At(x, t))
			})
			gs = append(gs, ropeGoal{what, tb.Implies(in, eq)})
		}
		off = tb.Add(off, p.n)
	}
	return gs
}

func (x *X) checkRope(name string, got Seq, gotLen *Term, rope []Piece) {
	if x.mute > 0 {
		return
	}
	for _, g := range x.ropeGoals(got, gotLen, rope) {
		x.oblige(name+": "+g.what, g.t)
	}
}

func (x *X) entrySeq(s SliceVal) Seq {
	if s.obj == nil {
		return ZeroSeq{}
	}
	if sq, ok := x.entry.bytes[s.obj.id]; ok {
		return x.view(sq, s.off)
	}
	return x.sliceSeq(s)
}

func (x *X) checkR(r RSpec, got Value, name string) {
	tb := x.tb
	switch r := r.(type) {
	case RApp:
		s, ok := got.(SliceVal)
		if !ok {
			x.oblige(name+" is a byte slice", tb.False())
			return
		}
		base := r.Base
		if s.obj == nil {
			x.oblige(name+" total length", tb.Eq(x.c64(0), tb.Add(base.n, x.ropeLen(r.Rope))))
			return
		}
		if base.obj != nil && s.obj.fam == base.obj.fam {
			x.oblige(name+" starts where the given buffer starts", tb.Eq(s.off, base.off))
		} else if !s.obj.fresh {
			x.oblige(name+" is the given buffer or fresh memory", tb.False())
			return
		}
		x.checkRope(name, x.sliceSeq(s), s.n, cat([]Piece{{seq: x.entrySeq(base), n: base.n, lab: "bytes already in the buffer"}}, r.Rope))
	case RTile:
		x.checkTile(r, got, name)
	case RKeep:
		s, ok := got.(SliceVal)
		if !ok {
			x.oblige(name+" is a byte slice", tb.False())
			return
		}
		base := r.Base
		x.oblige(name+" is not shorter than the given buffer", tb.Ule(tb.Add(base.n, x.c64(r.Min)), s.n))
		if s.obj == nil {
			return
		}
		if base.obj != nil && s.obj.fam == base.obj.fam {
			x.oblige(name+" starts where the given buffer starts", tb.Eq(s.off, base.off))
		} else if !s.obj.fresh {
			x.oblige(name+" is the given buffer or fresh memory", tb.False())
			return
		}
		x.checkRope(name, x.sliceSeq(s), base.n, []Piece{{seq: x.entrySeq(base), n: base.n, lab: "bytes already in the buffer"}})
	case RVal:
		x.obligeSame(name+" has the specified value", r.V, got)
	case RErr:
		x.oblige(name+" is a non-nil error", tb.Not(x.isNil(got)))
	case RNoErr:
		x.oblige(name+" is a nil error", x.isNil(got))
	case RAny:
	case RSym:
		for i, f := range r.F(x, got) {
			x.oblige(fmt.Sprintf("%s satisfies its specification (%d)", name, i+1), f)
		}
	case RFn:
		f, ok := got.(FuncVal)
		if !ok {
			x.oblige(name+" is a function", tb.False())
			return
		}
		r.Check(x, f)
	case RStr:
		s := got.(StrVal)
		x.checkRope(name, s.seq, s.n, r.Rope)
	case RBuf:
		s, ok := got.(SliceVal)
		if !ok {
			x.oblige(name+" is a byte slice", tb.False())
			return
		}
		x.checkRope(name, x.sliceSeq(s), s.n, r.Rope)
	default:
		x.unsupported("result spec %T", r)
	}
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
