package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Stats of solver use, measured.
var (
	statQueries  int64
	statFeas     int64
	statSolverNs int64
	slowN        int64
)

var solverSem = make(chan struct{}, 8)

// z3proc is a persistent incremental z3 used for quick feasibility questions.
type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startZ3() (*z3proc, error) {
	cmd := exec.Command(z3Path, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &z3proc{cmd, in, bufio.NewReader(out)}, nil
}

var z3Path = "z3-new"
var z3OldPath = "z3"
var cvc5Path = "cvc5"

var (
	procMu   sync.Mutex
	procPool []*z3proc
)

func getProc() (*z3proc, error) {
	procMu.Lock()
	if n := len(procPool); n > 0 {
		p := procPool[n-1]
		procPool = procPool[:n-1]
		procMu.Unlock()
		return p, nil
	}
	procMu.Unlock()
	return startZ3()
}
func putProc(p *z3proc) {
	procMu.Lock()
	procPool = append(procPool, p)
	procMu.Unlock()
}
func killProcs() {
	procMu.Lock()
	for _, p := range procPool {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	procPool = nil
	procMu.Unlock()
}

// quickCheck decides satisfiability with a short timeout; Unknown when unsure.
func quickCheck(asserts []*Term, ms int) Result {
	atomic.AddInt64(&statFeas, 1)
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	defer func() { atomic.AddInt64(&statSolverNs, int64(time.Since(t0))) }()
	p, err := getProc()
	if err != nil {
		return Unknown
	}
	if debug {
		defer func() {
			if d := time.Since(t0); d > 700*time.Millisecond {
				os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", atomic.AddInt64(&slowN, 1)), []byte(smtScript(asserts)+"(check-sat)\n"), 0o644)
			}
		}()
	}
	script := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"--done--\")\n", ms, smtScript(asserts))
	done := make(chan Result, 1)
	go func() {
		io.WriteString(p.in, script)
		r := Unknown
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				done <- Unknown
				return
			}
			line = strings.TrimSpace(line)
			switch line {
			case "sat":
				r = Sat
			case "unsat":
				r = Unsat
			case "--done--":
				done <- r
				return
			default:
				if strings.HasPrefix(line, "(error") {
					debugf("z3 error: %s", line)
				}
			}
		}
	}()
	select {
	case r := <-done:
		putProc(p)
		return r
	case <-time.After(time.Duration(ms)*time.Millisecond*3 + 5*time.Second):
		p.cmd.Process.Kill()
		p.cmd.Wait()
		return Unknown
	}
}

type SolveOut struct {
	Res    Result
	Solver string
	Model  string
	Detail string
	Dur    time.Duration
}

func runSolver(path string, args []string, script string, tmo time.Duration) (Result, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	defer func() { atomic.AddInt64(&statSolverNs, int64(time.Since(t0))) }()
	ctx, cancel := context.WithTimeout(context.Background(), tmo+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, path, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch strings.TrimSpace(first) {
	case "unsat":
		return Unsat, s
	case "sat":
		return Sat, s
	}
	return Unknown, s
}

// discharge proves hyps => goal; Unsat means proved.
func discharge(tb *TB, hyps []*Term, goal *Term, vals []*Term, budget time.Duration) SolveOut {
	atomic.AddInt64(&statQueries, 1)
	t0 := time.Now()
	if goal.IsTrue() {
		return SolveOut{Res: Unsat, Solver: "simplifier", Dur: time.Since(t0)}
	}
	as := append(append([]*Term(nil), hyps...), tb.Not(goal))
	as = natAbstract(tb, as)
	body := smtScript(as)
	script := func(ms int64, z3 bool) string {
		var sb strings.Builder
		if z3 {
			fmt.Fprintf(&sb, "(set-option :timeout %d)\n", ms)
		} else {
			sb.WriteString("(set-logic ALL)\n")
		}
		sb.WriteString("(set-option :produce-models true)\n")
		sb.WriteString(body)
		sb.WriteString("(check-sat)\n")
		return sb.String()
	}
	first := budget / 3
	if first > 8*time.Second {
		first = 8 * time.Second
	}
	r, s := runSolver(z3Path, []string{"-in", "-smt2"}, script(first.Milliseconds(), true), first)
	if r != Unknown {
		o := SolveOut{Res: r, Solver: "z3-5.3.2", Dur: time.Since(t0), Detail: clip(s, 400)}
		if r == Sat {
			o.Model = getModel(as, vals)
		}
		return o
	}
	detail := clip(s, 300)
	type ans struct {
		r    Result
		s, n string
	}
	ch := make(chan ans, 3)
	go func() {
		r, s := runSolver(cvc5Path, []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", budget.Milliseconds())}, script(0, false), budget)
		ch <- ans{r, s, "cvc5-1.1.2"}
	}()
	go func() {
		r, s := runSolver(z3OldPath, []string{"-in", "-smt2"}, script(budget.Milliseconds(), true), budget)
		ch <- ans{r, s, "z3-4.8.12"}
	}()
	go func() {
		r, s := runSolver(z3Path, []string{"-in", "-smt2"}, script(budget.Milliseconds(), true), budget)
		ch <- ans{r, s, "z3-5.3.2"}
	}()
	for i := 0; i < 3; i++ {
		a := <-ch
		if a.r != Unknown {
			o := SolveOut{Res: a.r, Solver: a.n, Dur: time.Since(t0), Detail: clip(a.s, 400)}
			if a.r == Sat {
				o.Model = getModel(as, vals)
			}
			return o
		}
		detail += " | " + a.n + ": " + clip(a.s, 200)
	}
	return SolveOut{Res: Unknown, Solver: "none", Dur: time.Since(t0), Detail: detail}
}

// getModel re-solves to print the values of the interesting terms, preferring small lengths.
func getModel(as []*Term, vals []*Term) string {
	if len(vals) == 0 {
		return ""
	}
	// declare all vals by asserting trivial equalities on them
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-option :timeout 4000)\n")
	keep := append([]*Term(nil), as...)
	seen := map[*Term]bool{}
	walk(seen, func(*Term) {}, as...)
	var use []*Term
	for _, v := range vals {
		if seen[v] {
			use = append(use, v)
		}
	}
	if len(use) == 0 {
		return ""
	}
	sb.WriteString(smtScript(keep))
	var q strings.Builder
	for _, v := range use {
		if v.sort.K == KBV && v.sort.W == 64 && strings.Contains(v.String(), "len") {
			fmt.Fprintf(&q, "(assert-soft (bvult %s #x0000000000008000) :weight 4)\n", plainExpr(v))
			fmt.Fprintf(&q, "(assert-soft (bvult %s #x0000000000000100) :weight 2)\n", plainExpr(v))
		}
	}
	q.WriteString("(check-sat)\n(get-value (")
	for _, v := range use {
		q.WriteString(plainExpr(v) + " ")
	}
	q.WriteString("))\n")
	_, s := runSolver(z3Path, []string{"-in", "-smt2"}, sb.String()+q.String(), 6*time.Second)
	return clip(s, 6000)
}

func plainExpr(t *Term) string {
	switch t.op {
	case "const":
		return constStr(t)
	case "var":
		return smtName(t.name)
	}
	p := &printer{names: map[*Term]string{}}
	return p.expr(t)
}

func clip(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// natAbstract replaces bv2nat(t) by integer variables with the facts that relate them,
// so that integer reasoning does not go through bit-blasting.
func natAbstract(tb *TB, as []*Term) []*Term {
	has := false
	walk(map[*Term]bool{}, func(t *Term) {
		if t.op == "bv2nat" {
			has = true
		}
	}, as...)
	if !has {
		return as
	}
	m := map[*Term]*Term{}
	var facts []*Term
	bound := map[*Term]*big.Int{} // inclusive upper bounds of the integer terms
	type dm struct{ q, r *Term }
	dms := map[string]dm{}
	divmod := func(s *Term, d *big.Int) dm {
		k := fmt.Sprint(s.id, "/", d)
		if v, ok := dms[k]; ok {
			return v
		}
		v := dm{tb.Fresh("quo", SInt), tb.Fresh("rem", SInt)}
		dms[k] = v
		bound[v.q] = new(big.Int).Div(bound[s], d)
		bound[v.r] = new(big.Int).Sub(d, one)
		facts = append(facts, tb.Eq(s, tb.IAdd(tb.IMul(tb.IntBig(d), v.q), v.r)),
			tb.ILe(tb.Int(0), v.r), tb.ILt(v.r, tb.IntBig(d)), tb.ILe(tb.Int(0), v.q), tb.ILe(v.q, tb.IntBig(bound[v.q])))
		return v
	}
	quo := func(s *Term, d *big.Int) *Term {
		if bound[s].Cmp(d) < 0 {
			bound[tb.Int(0)] = new(big.Int)
			return tb.Int(0)
		}
		return divmod(s, d).q
	}
	rem := func(s *Term, d *big.Int) *Term {
		if bound[s].Cmp(d) < 0 {
			return s
		}
		return divmod(s, d).r
	}
	sum := func(ts []*Term) *Term {
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		b := new(big.Int)
		for _, t := range ts {
			b.Add(b, bound[t])
		}
		s := tb.IAdd(ts...)
		bound[s] = b
		return s
	}
	mul := func(c *big.Int, t *Term) *Term {
		s := tb.IMul(tb.IntBig(c), t)
		bound[s] = new(big.Int).Mul(c, bound[t])
		return s
	}
	var abs func(t *Term) *Term
	var abs1 func(t *Term) *Term
	abs = func(t *Term) *Term { // t: BV term, result Int
		if t.IsConst() {
			r := tb.IntBig(t.val)
			bound[r] = t.val
			return r
		}
		if t.op == "zext" {
			return abs(t.args[0])
		}
		key := tb.Nat(t)
		if v, ok := m[key]; ok {
			return v
		}
		v := abs1(t)
		m[key] = v
		return v
	}
	abs1 = func(t *Term) *Term {
		w := new2(t.sort.W)
		switch t.op {
		case "bvadd":
			var s []*Term
			for _, a := range t.args {
				s = append(s, abs(a))
			}
			return rem(sum(s), w)
		case "bvmul":
			if t.args[0].IsConst() {
				return rem(mul(t.args[0].val, abs(t.args[1])), w)
			}
		case "bvlshr":
			if t.args[1].IsConst() && t.args[1].val.IsInt64() && t.args[1].val.Int64() < int64(t.sort.W) {
				return quo(abs(t.args[0]), new2(int(t.args[1].val.Int64())))
			}
		case "bvand":
			for i := 0; i < 2; i++ {
				if c := t.args[i]; c.IsConst() {
					n := new2(c.val.BitLen())
					n.Sub(n, one)
					if n.Cmp(c.val) == 0 {
						return rem(abs(t.args[1-i]), new2(c.val.BitLen()))
					}
				}
			}
		case "bvudiv":
			if t.args[1].IsConst() && t.args[1].val.Sign() > 0 {
				return quo(abs(t.args[0]), t.args[1].val)
			}
		case "bvurem":
			if t.args[1].IsConst() && t.args[1].val.Sign() > 0 {
				return rem(abs(t.args[0]), t.args[1].val)
			}
		case "concat":
			return sum([]*Term{mul(new2(t.args[1].sort.W), abs(t.args[0])), abs(t.args[1])})
		case "extract":
			var h, l int
			fmt.Sscanf(t.name, "%d %d", &h, &l)
			return rem(quo(abs(t.args[0]), new2(l)), new2(h-l+1))
		}
		v := tb.Fresh("nat", SInt)
		bound[v] = new(big.Int).Sub(w, one)
		facts = append(facts, tb.ILe(tb.Int(0), v), tb.ILt(v, tb.IntBig(w)))
		if t.op == "ite" {
			facts = append(facts, tb.Eq(v, tb.Ite(t.args[0], abs(t.args[1]), abs(t.args[2]))))
		}
		return v
	}
	var nats []*Term
	walk(map[*Term]bool{}, func(t *Term) {
		if t.op == "bv2nat" {
			nats = append(nats, t)
		}
		// comparisons and equalities over BVs also say something about the integers
		if (t.op == "bvult" || t.op == "=") && len(t.args) == 2 && t.args[0].sort.K == KBV {
			nats = append(nats, t)
		}
	}, as...)
	for _, t := range nats {
		if t.op == "bv2nat" {
			abs(t.args[0])
		}
	}
	for _, t := range nats {
		if t.op == "bvult" || t.op == "=" {
			// relate only when both sides are already abstracted (or constant)
			x, y := t.args[0], t.args[1]
			ok := func(z *Term) bool {
				if z.IsConst() {
					return true
				}
				if z.op == "zext" {
					z = z.args[0]
				}
				_, in := m[tb.Nat(z)]
				return in
			}
			if ok(x) && ok(y) {
				if t.op == "=" {
					facts = append(facts, tb.Eq(t, tb.Eq(abs(x), abs(y))))
				} else {
					facts = append(facts, tb.Eq(t, tb.ILt(abs(x), abs(y))))
				}
			}
		}
	}
	memo := map[*Term]*Term{}
	out := make([]*Term, 0, len(as)+len(facts))
	for _, a := range as {
		out = append(out, tb.Subst(a, m, memo))
	}
	return append(out, facts...)
}
