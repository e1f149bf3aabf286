package main

// Path exploration by re-execution, obligations, and the bridge to the solvers.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type abortPath struct{ why string }
type unsupported struct{ msg string }
type failFast struct{}

type choice struct{ c, n int }

// Engine holds what is shared between the verified functions.
type Engine struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // by import path
	contracts map[string]*Contract
	prop      string // the property being checked: some have their own contracts
	mu        sync.Mutex
	broken    map[string]bool // contracts of helpers that failed: inlined instead
	oblBudget time.Duration
	typeIDs   map[string]int
	typeByID  []types.Type
	nBase     int
	gw        map[*ssa.Global]bool
	allFns    map[*ssa.Function]bool
	fnBudget  time.Duration
	recheck   bool
	fnByKey   map[string]*ssa.Function
}

func (e *Engine) baseTypes() int { return e.nBase }

type Obl struct {
	Fn     string  `json:"function"`
	Name   string  `json:"obligation"`
	Path   string  `json:"path,omitempty"`
	Res    string  `json:"result"`
	Solver string  `json:"solver"`
	Secs   float64 `json:"secs"`
	Model  string  `json:"model,omitempty"`
	Detail string  `json:"detail,omitempty"`
}

type X struct {
	eng        *Engine
	tb         *TB
	st         *State
	con        *Contract
	fn         *ssa.Function
	script     []choice
	pos        int
	obls       []*Obl
	failed     []*Obl
	nOK        int
	bySolver   map[string]int
	maxSecs    float64
	mute       int
	atOracle   func(*Term) *Term
	nextObj    int
	nextFam    int
	guards     map[int][]guardFn
	cands      []*Cat
	dcache     map[string]int
	used       map[string]bool // contracts used at call sites
	inlined    map[string]bool
	externs    map[string]bool
	depth      int
	paths      int
	entry      *State
	params     []Value
	vals       []*Term // terms worth printing in models
	posNote    string
	globals    map[*ssa.Global]*Obj
	termObjs   map[string]*Obj
	stack      []*ssa.Function
	facts      []*Term
	factSeen   map[int]bool
	alias      map[*Term][]*Term
	unfold     bool
	deadline   time.Time
	rawEvents  bool
	ghostData  map[string]any
	steps      int
	onStore    func(PtrVal)
	onLoad     func(PtrVal, string)
	persist    map[string]bool // choices of invariants, kept over restarts
	guesses    map[string]*LoopGuess
	cutUsed    bool
	derefs     map[*Term]derefInfo
	objByID    map[int]*Obj
	elemWrites map[int]*elemWrite
	onEvent    func(x *X, kind string, args []Value)
	completed  int
	shard      int
	fast       *fastCtx
	fastN      int
	fastLast   *Term
	fastSt     *State
	vlenMemo   map[*Term]*Term
}

// derefInfo: the interface value reached after following pointers from another one (d: at least one).
type derefInfo struct {
	t *Term
	d *Term
}

type guardFn func(x *X, off, n *Term) *Term

func (e *Engine) newX(fn *ssa.Function, con *Contract) *X {
	x := &X{eng: e, tb: NewTB(), fn: fn, con: con, dcache: map[string]int{}, used: map[string]bool{},
		inlined: map[string]bool{}, externs: map[string]bool{}, bySolver: map[string]int{}, guesses: map[string]*LoopGuess{}, persist: map[string]bool{}, vlenMemo: map[*Term]*Term{}}
	return x
}

func (x *X) c64(v int64) *Term { return x.tb.BVi(64, v) }

func (x *X) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if x.pos < len(x.script) {
		c := x.script[x.pos]
		if c.n != n {
			panic(unsupported{fmt.Sprintf("internal: non-deterministic re-execution (%d vs %d choices)", c.n, n)})
		}
		x.pos++
		return c.c
	}
	x.script = append(x.script, choice{0, n})
	x.pos++
	return 0
}

// nextScript advances to the next path; lo is the length of the prefix to leave alone.
func (x *X) nextScript(lo int) bool {
	for len(x.script) > lo {
		l := len(x.script) - 1
		if x.script[l].c+1 < x.script[l].n {
			x.script[l].c++
			return true
		}
		x.script = x.script[:l]
	}
	return false
}

func (x *X) assume(t *Term) {
	if t.IsTrue() {
		return
	}
	if t.IsFalse() {
		panic(abortPath{"assumed false"})
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.assume(a)
		}
		return
	}
	for _, p := range x.st.pc {
		if p == t {
			return
		}
	}
	t = x.norm(t)
	if t.IsTrue() {
		return
	}
	if t.IsFalse() {
		panic(abortPath{"assumed false"})
	}
	x.st.pc = append(x.st.pc, t)
	x.noteEq(t)
}

// noteEq: at the exit of a counted loop the iteration number equals the bound; from then on the bound is
// written for it, so that equal terms look equal.
func (x *X) noteEq(t *Term) {
	if t.op != "not" || t.args[0].op != "bvult" && t.args[0].op != "bvslt" {
		return
	}
	k, l := t.args[0].args[0], t.args[0].args[1]
	d := x.tb.Sub(l, k)
	for _, a := range linVars(x.tb, d) {
		if !strings.HasPrefix(a.name, "k!") {
			continue
		}
		m := map[*Term]*big.Int{}
		c := new(big.Int)
		x.tb.lin(d, big.NewInt(1), m, c)
		v := x.tb.Add(d, a)
		if m[a].Cmp(mask(64)) != 0 {
			continue
		}
		if x.fastDecide(x.tb.Eq(d, x.c64(0))) != 1 {
			continue
		}
		eqs := map[*Term]*Term{a: v}
		for o, t := range x.st.eqs {
			eqs[o] = x.tb.Subst(t, map[*Term]*Term{a: v}, map[*Term]*Term{})
		}
		x.st.eqs = eqs
		x.st.eqMemo = map[*Term]*Term{}
		var pc []*Term
		for _, p := range x.st.pc {
			if q := x.norm(p); !q.IsTrue() {
				pc = append(pc, q)
			}
		}
		x.st.pc = pc
		x.fast = nil
		return
	}
}

func linVars(tb *TB, t *Term) []*Term {
	if t.sort.K != KBV || t.sort.W != 64 {
		return nil
	}
	m := map[*Term]*big.Int{}
	tb.lin(t, big.NewInt(1), m, new(big.Int))
	var out []*Term
	for _, a := range sortedTerms(m) {
		if a.op == "var" {
			out = append(out, a)
		}
	}
	return out
}

func (x *X) norm(t *Term) *Term {
	if len(x.st.eqs) == 0 {
		return t
	}
	return x.tb.Subst(t, x.st.eqs, x.st.eqMemo)
}

func key(pc []*Term, extra ...*Term) string {
	var sb strings.Builder
	for _, t := range pc {
		sb.WriteString(strconv.Itoa(t.id))
		sb.WriteByte(',')
	}
	sb.WriteByte('|')
	for _, t := range extra {
		sb.WriteString(strconv.Itoa(t.id))
		sb.WriteByte(',')
	}
	return sb.String()
}

// satWith reports whether pc and t are jointly satisfiable (Unknown counts as true).
func (x *X) satWith(t *Term) bool {
	t = x.norm(t)
	if t.IsFalse() {
		return false
	}
	if x.fastDecide(t) == -1 {
		return false
	}
	pc := x.relevant(x.st.pc, t)
	k := "s" + key(pc, t)
	if r, ok := x.dcache[k]; ok {
		return r == 1
	}
	as := append(append([]*Term(nil), pc...), t)
	as = append(as, x.axioms(as)...)
	t0 := time.Now()
	r, _ := x.quick(as, 1500)
	if debug && time.Since(t0) > 800*time.Millisecond {
		debugf("slow feasibility %v: %s pc=%d %s", time.Since(t0), t, len(pc), x.where())
	}
	v := 1
	if r == Unsat {
		v = 0
	}
	x.dcache[k] = v
	return v == 1
}

var statConfirmed, statUnconfirmed int64

// decide: 1 when pc implies t, -1 when pc implies not t, else 0.
func (x *X) decide(t *Term) int {
	t = x.norm(t)
	if t.IsTrue() {
		return 1
	}
	if t.IsFalse() {
		return -1
	}
	nt := x.tb.Not(t)
	for _, p := range x.st.pc {
		if p == t {
			return 1
		}
		if p == nt {
			return -1
		}
	}
	if r := x.fastDecide(t); r != 0 {
		if x.eng.recheck && x.mute == 0 {
			g := t
			if r < 0 {
				g = nt
			}
			if x.confirm(g) {
				atomic.AddInt64(&statConfirmed, 1)
			} else {
				atomic.AddInt64(&statUnconfirmed, 1)
			}
		}
		return r
	}
	if !x.satWith(nt) {
		return 1
	}
	if !x.satWith(t) {
		return -1
	}
	return 0
}

// branch forks on a condition.
func (x *X) branch(c *Term) bool {
	switch x.decide(c) {
	case 1:
		return true
	case -1:
		return false
	}
	if x.choose(2) == 0 {
		x.assume(c)
		return true
	}
	x.assume(x.tb.Not(c))
	return false
}

// relevant keeps the hypotheses connected to t through shared symbols.
func (x *X) relevant(pc []*Term, t ...*Term) []*Term {
	if len(pc) < 8 {
		return pc
	}
	syms := map[string]bool{}
	var collect func(t *Term) map[string]bool
	collect = func(t *Term) map[string]bool { return x.symsOf(t) }
	for _, y := range t {
		for s := range collect(y) {
			syms[s] = true
		}
	}
	in := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if in[i] {
				continue
			}
			ps := collect(p)
			hit := len(ps) == 0
			for s := range ps {
				if syms[s] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				changed = true
				for s := range ps {
					syms[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if in[i] {
			out = append(out, p)
		}
	}
	return out
}

func (x *X) symsOf(t *Term) map[string]bool {
	if t.syms != nil {
		return t.syms
	}
	m := map[string]bool{}
	walk(map[*Term]bool{}, func(u *Term) {
		switch u.op {
		case "var":
			m[u.name] = true
		case "app":
			// applications connect through their arguments; a closed application is its own symbol
			closed := true
			for _, a := range u.args {
				if !a.IsConst() {
					closed = false
				}
			}
			if closed {
				m[u.name+"()"] = true
			}
		}
	}, t)
	t.syms = m
	return m
}

// axioms instantiates the definitions of the spec symbols that occur in the terms.
func (x *X) axioms(as []*Term) []*Term {
	tb := x.tb
	var out []*Term
	done := map[*Term]bool{}
	work := as
	for round := 0; round < 4 && len(work) > 0; round++ {
		var fresh []*Term
		walk(map[*Term]bool{}, func(t *Term) {
			if t.op != "app" && t.op != "var" || done[t] {
				return
			}
			done[t] = true
			switch {
			case t.name == "vlen":
				v := t.args[0]
				r := x.c64(10)
				for i := 9; i >= 1; i-- {
					r = tb.Ite(tb.Ult(v, tb.BVBig(64, new2(7*i))), x.c64(int64(i)), r)
				}
				fresh = append(fresh, tb.Eq(t, r))
			case t.name == "blen":
				v := t.args[0]
				r := x.c64(int64(v.sort.W))
				for i := v.sort.W - 1; i >= 0; i-- {
					r = tb.Ite(tb.Ult(v, tb.BVBig(v.sort.W, new2(i))), x.c64(int64(i)), r)
				}
				fresh = append(fresh, tb.Eq(t, r))
			case strings.HasPrefix(t.name, "len_") && t.sort.K == KBV:
				fresh = append(fresh, tb.Ult(t, tb.BVBig(64, new2(40))))
				if strings.HasPrefix(t.name, "len_cat_") {
					k := len(t.args)
					fresh = append(fresh, tb.Implies(tb.Eq(t.args[k-2], t.args[k-1]), tb.Eq(t, x.c64(0))))
				}
			case strings.HasPrefix(t.name, "ok_cat_"):
				k := len(t.args)
				fresh = append(fresh, tb.Implies(tb.Eq(t.args[k-2], t.args[k-1]), t))
			}
			if f := extraAxiom[t.name]; f != nil {
				fresh = append(fresh, f(x, t)...)
			}
		}, work...)
		out = append(out, fresh...)
		work = fresh
	}
	return out
}

var extraAxiom = map[string]func(x *X, t *Term) []*Term{}

// prove tries to show pc => goal; used for trial decisions as well as for obligations.
func (x *X) prove(goal *Term) (bool, SolveOut) {
	goal = x.norm(goal)
	if goal.IsTrue() {
		return true, SolveOut{Res: Unsat, Solver: "simplifier"}
	}
	for _, p := range x.st.pc {
		if p == goal {
			return true, SolveOut{Res: Unsat, Solver: "simplifier"}
		}
	}
	if x.fastDecide(goal) == 1 {
		if x.mute > 0 || x.confirm(goal) {
			return true, SolveOut{Res: Unsat, Solver: "linear, confirmed by z3-5.3.2"}
		}
	}
	ng := x.tb.Not(goal)
	pc := x.relevant(x.st.pc, ng)
	k := "p" + key(pc, ng)
	if r, ok := x.dcache[k]; ok && r == 1 {
		return true, SolveOut{Res: Unsat, Solver: "cached"}
	}
	as := append(append([]*Term(nil), pc...), ng)
	as = append(as, x.axioms(as)...)
	t0 := time.Now()
	if !hasNat(as) {
		if r, by := x.quick(as, 4000); r == Unsat {
			x.dcache[k] = 1
			return true, SolveOut{Res: Unsat, Solver: by, Dur: time.Since(t0)}
		}
	}
	if da, ok := divAbstract(x.tb, as); ok {
		if quickCheck(da, 3000) == Unsat {
			x.dcache[k] = 1
			return true, SolveOut{Res: Unsat, Solver: "z3-5.3.2", Dur: time.Since(t0)}
		}
	}
	hyps := append(append([]*Term(nil), pc...), x.axioms(as)...)
	out := discharge(x.tb, hyps, goal, x.vals, x.eng.oblBudget)
	if debug {
		debugf("discharge %v %v by %s: %s", out.Res, time.Since(t0), out.Solver, clip(goal.String(), 400))
	}
	if out.Res == Unsat {
		x.dcache[k] = 1
		return true, out
	}
	return false, out
}

// confirm re-checks a verdict of the built-in linear procedure with z3.
func (x *X) confirm(goal *Term) bool {
	ng := x.tb.Not(goal)
	pc := x.relevant(x.st.pc, ng)
	k := "c" + key(pc, ng)
	if r, ok := x.dcache[k]; ok {
		return r == 1
	}
	as := append(append([]*Term(nil), pc...), ng)
	ax := x.axioms(as)
	t0 := time.Now()
	// with simple bounds instead of the definitions of the length functions first
	var weak []*Term
	for _, a := range ax {
		if a.op == "=" && len(a.args) == 2 {
			l := a.args[0]
			if l.op != "app" {
				l = a.args[1]
			}
			if l.op == "app" && (l.name == "vlen" || l.name == "blen") {
				if l.name == "vlen" {
					weak = append(weak, x.tb.Ule(x.c64(1), l), x.tb.Ule(l, x.c64(10)))
				}
				continue
			}
		}
		weak = append(weak, a)
	}
	la, _ := linRelax(x.tb, append(as[:len(as):len(as)], weak...))
	r := quickCheck(la, 1500)
	if r != Unsat {
		r, _ = x.quick(append(as[:len(as):len(as)], weak...), 300)
	}
	if r != Unsat {
		r, _ = x.quick(append(as[:len(as):len(as)], ax...), 4000)
	}
	if debug && time.Since(t0) > 500*time.Millisecond {
		debugf("slow confirmation %v: %s pc=%d %s", time.Since(t0), clip(goal.String(), 300), len(pc), x.where())
	}
	if r == Unsat {
		x.dcache[k] = 1
		return true
	}
	debugf("linear verdict not confirmed: %s", clip(goal.String(), 300))
	x.dcache[k] = 0
	return false
}

// divAbstract replaces divisions by constants with fresh variables (a weakening of the hypotheses).
func divAbstract(tb *TB, as []*Term) ([]*Term, bool) {
	m := map[*Term]*Term{}
	var facts []*Term
	walk(map[*Term]bool{}, func(t *Term) {
		if t.sort.K == KBV && (t.op == "bvurem" || t.op == "bvudiv" || t.op == "bvsdiv" || t.op == "bvsrem") {
			v := tb.Fresh("divabs", t.sort)
			m[t] = v
			if t.op == "bvurem" && t.args[1].IsConst() {
				facts = append(facts, tb.Ult(v, t.args[1]))
			}
			if t.op == "bvudiv" {
				facts = append(facts, tb.Ule(v, t.args[0]))
			}
		}
	}, as...)
	if len(m) == 0 {
		return nil, false
	}
	var out []*Term
	memo := map[*Term]*Term{}
	for _, a := range as {
		out = append(out, tb.Subst(a, m, memo))
	}
	return append(out, facts...), true
}

func hasNat(as []*Term) bool {
	has := false
	walk(map[*Term]bool{}, func(t *Term) {
		if t.op == "bv2nat" || t.sort.K == KInt {
			has = true
		}
	}, as...)
	return has
}

// oblige records a proof obligation at the current point and returns whether it was discharged.
func (x *X) oblige(name string, goal *Term) bool {
	if x.mute > 0 {
		if goal.IsFalse() {
			panic(abortPath{"muted obligation is false"})
		}
		x.assume(goal)
		return true
	}
	ok, out := x.prove(goal)
	if ok {
		if out.Solver != "cached" {
			x.count(out)
			if out.Dur > 2*time.Second {
				debugf("slow obligation %s: %s %.1fs by %s", x.fnName(), name, out.Dur.Seconds(), out.Solver)
			}
		}
		return true
	}
	o := &Obl{Fn: x.fnName(), Name: name, Path: x.where(), Res: out.Res.String(), Solver: out.Solver, Secs: out.Dur.Seconds(), Model: out.Model, Detail: out.Detail}
	x.failed = append(x.failed, o)
	if debug {
		debugf("FAILED %s: %s [%s] (%s)\n  goal: %s\n  model: %s", o.Fn, name, o.Path, out.Res, clip(goal.String(), 3000), out.Model)
		for _, p := range x.st.pc {
			debugf("    pc: %s", clip(p.String(), 400))
		}
	}
	if len(x.failed) >= x.maxFail() {
		panic(failFast{})
	}
	if goal.IsFalse() {
		panic(abortPath{"obligation failed"})
	}
	x.assume(goal)
	return false
}

func (x *X) count(out SolveOut) {
	x.nOK++
	x.bySolver[out.Solver]++
	if s := out.Dur.Seconds(); s > x.maxSecs {
		x.maxSecs = s
	}
}

func (x *X) maxFail() int { return 1 }

func (x *X) fnName() string { return fnKey(x.fn) }

func (x *X) where() string {
	var s []string
	for i, f := range x.stack {
		if i > 0 {
			s = append(s, f.Name())
		}
	}
	return strings.Join(s, ">") + x.posNote
}

func (x *X) unsupported(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// ---- objects ----

func (x *X) newObj(kind byte, typ types.Type, name string) *Obj {
	x.nextObj++
	x.nextFam++
	o := &Obj{id: x.nextObj, kind: kind, typ: typ, fam: x.nextFam, name: name, fresh: true}
	x.st.fams[o.fam] = append(x.st.fams[o.fam], o)
	x.objByID[o.id] = o
	return o
}

func (x *X) derivedObj(base *Obj) *Obj {
	x.nextObj++
	o := &Obj{id: x.nextObj, kind: base.kind, typ: base.typ, fam: base.fam, name: base.name + "'", fresh: base.fresh}
	x.st.fams[o.fam] = append(x.st.fams[o.fam][:len(x.st.fams[o.fam]):len(x.st.fams[o.fam])], o)
	x.objByID[o.id] = o
	return o
}

// writeBytes overwrites [off, off+n) of obj with src (src indexed from 0).
func (x *X) writeBytes(o *Obj, off, n *Term, src Seq, what string) {
	if n.IsConst() && n.val.Sign() == 0 {
		return
	}
	if gs := x.guards[o.fam]; gs != nil {
		var cs []*Term
		for _, g := range gs {
			cs = append(cs, g(x, off, n))
		}
		x.oblige("frame: "+what+" writes only where allowed in "+o.name, x.tb.Or(cs...))
	} else if !o.fresh {
		x.oblige("frame: "+what+" writes to "+o.name+", which is not in the modifies clause", x.tb.Eq(n, x.c64(0)))
	}
	x.st.bytes[o.id] = &LogSeq{x.st.bytes[o.id], off, n, src}
	x.havocOthers(o, off, n)
}

func (x *X) havocOthers(o *Obj, off, n *Term) {
	for _, m := range x.st.fams[o.fam] {
		if m != o {
			h := &SymSeq{x.tb.FreshName("hv"), nil}
			x.st.bytes[m.id] = &LogSeq{x.st.bytes[m.id], off, n, h}
		}
	}
}

func (x *X) symSeq(hint string) Seq { return &SymSeq{x.tb.FreshName(hint), nil} }

func (x *X) sliceSeq(s SliceVal) Seq {
	if s.obj == nil {
		return ZeroSeq{}
	}
	return x.view(x.st.bytes[s.obj.id], s.off)
}

func (x *X) boundLen(t *Term, bits int) {
	x.assume(x.tb.Ult(t, x.tb.BVBig(64, new2(bits))))
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
