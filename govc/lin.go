package main

// linRelax rewrites bit-vector formulas into linear integer arithmetic. Every model of the original is a
// model of the result (terms it does not understand become unconstrained variables in their range), so an
// unsat answer is an unsat answer for the original. The flag reports that nothing was weakened.

import (
	"fmt"
	"math/big"
	"sort"
)

type ivl struct{ lo, hi *big.Int }

type linCtx struct {
	tb    *TB
	ints  map[*Term]*Term
	iv    map[*Term]ivl
	bools map[*Term]*Term
	facts []*Term
	units map[*Term]*big.Int // atom < const, from unit hypotheses
	exact bool
	n     int
}

func linRelax(tb *TB, as []*Term) ([]*Term, bool) {
	c := &linCtx{tb: tb, ints: map[*Term]*Term{}, iv: map[*Term]ivl{}, bools: map[*Term]*Term{}, units: map[*Term]*big.Int{}, exact: true}
	for _, a := range as {
		if a.op == "bvult" && a.args[1].IsConst() {
			if o, ok := c.units[a.args[0]]; !ok || a.args[1].val.Cmp(o) < 0 {
				c.units[a.args[0]] = a.args[1].val
			}
		}
		// vlen's definition gives its range
		if a.op == "=" && len(a.args) == 2 {
			for _, t := range a.args {
				if t.op == "app" && t.name == "vlen" {
					c.units[t] = big.NewInt(11)
				}
			}
		}
	}
	var out []*Term
	for _, a := range as {
		out = append(out, c.fm(a))
	}
	return append(out, c.facts...), c.exact
}

func (c *linCtx) fm(t *Term) *Term {
	if r, ok := c.bools[t]; ok {
		return r
	}
	r := c.fm1(t)
	c.bools[t] = r
	return r
}

func (c *linCtx) opaqueB(t *Term) *Term {
	c.exact = false
	return c.tb.Fresh("lb", SBool)
}

func (c *linCtx) fm1(t *Term) *Term {
	tb := c.tb
	switch t.op {
	case "const", "var":
		return t
	case "not":
		return tb.Not(c.fm(t.args[0]))
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = c.fm(a)
		}
		if t.op == "and" {
			return tb.And(as...)
		}
		return tb.Or(as...)
	case "ite":
		return tb.Ite(c.fm(t.args[0]), c.fm(t.args[1]), c.fm(t.args[2]))
	case "=":
		switch t.args[0].sort.K {
		case KBV:
			return tb.Eq(c.num(t.args[0]), c.num(t.args[1]))
		case KBool:
			return tb.Eq(c.fm(t.args[0]), c.fm(t.args[1]))
		}
	case "bvult":
		return tb.ILt(c.num(t.args[0]), c.num(t.args[1]))
	case "bvslt":
		a, b := c.snum(t.args[0]), c.snum(t.args[1])
		return tb.ILt(a, b)
	}
	if t.op == "app" {
		return c.tb.Fresh("lb", SBool)
	}
	return c.opaqueB(t)
}

// snum is the signed value.
func (c *linCtx) snum(t *Term) *Term {
	v := c.num(t)
	half := new2(t.sort.W - 1)
	if c.iv[t].hi.Cmp(half) < 0 {
		return v
	}
	return c.tb.Ite(c.tb.ILt(v, c.tb.IntBig(half)), v, c.tb.ISub(v, c.tb.IntBig(new2(t.sort.W))))
}

// num is the unsigned value of a bit-vector term.
func (c *linCtx) num(t *Term) *Term {
	if r, ok := c.ints[t]; ok {
		return r
	}
	r, v := c.num1(t)
	if v.lo == nil {
		v = ivl{big.NewInt(0), new(big.Int).Sub(new2(t.sort.W), one)}
	}
	if u, ok := c.units[t]; ok && u.Cmp(v.hi) <= 0 {
		v.hi = new(big.Int).Sub(u, one)
	}
	c.ints[t] = r
	c.iv[t] = v
	return r
}

func (c *linCtx) atom(t *Term, why bool) (*Term, ivl) {
	tb := c.tb
	if why {
		c.exact = false
	}
	v := tb.Fresh("ln", SInt)
	hi := new(big.Int).Sub(new2(t.sort.W), one)
	lo := big.NewInt(0)
	if u, ok := c.units[t]; ok && u.Cmp(hi) <= 0 {
		hi = new(big.Int).Sub(u, one)
	}
	if t.op == "app" && t.name == "vlen" {
		lo = big.NewInt(1)
	}
	c.facts = append(c.facts, tb.ILe(tb.IntBig(lo), v), tb.ILe(v, tb.IntBig(hi)))
	return v, ivl{lo, hi}
}

func (c *linCtx) num1(t *Term) (*Term, ivl) {
	tb := c.tb
	w := t.sort.W
	top := new(big.Int).Sub(new2(w), one)
	wrap := func(sum *Term, lo, hi *big.Int) (*Term, ivl) {
		if lo.Sign() >= 0 && hi.Cmp(top) <= 0 {
			return sum, ivl{lo, hi}
		}
		m := new2(w)
		kl := new(big.Int).Div(lo, m)
		kh := new(big.Int).Div(hi, m)
		k := tb.Fresh("lk", SInt)
		v := tb.Fresh("lw", SInt)
		c.facts = append(c.facts, tb.ILe(tb.IntBig(kl), k), tb.ILe(k, tb.IntBig(kh)),
			tb.ILe(tb.Int(0), v), tb.ILe(v, tb.IntBig(top)),
			tb.Eq(v, tb.ISub(sum, tb.IMul(tb.IntBig(m), k))))
		return v, ivl{big.NewInt(0), top}
	}
	switch t.op {
	case "const":
		return tb.IntBig(t.val), ivl{t.val, t.val}
	case "var":
		return c.atom(t, false)
	case "app":
		return c.atom(t, false)
	case "zext":
		r := c.num(t.args[0])
		return r, c.iv[t.args[0]]
	case "ite":
		g := c.fm(t.args[0])
		a, b := c.num(t.args[1]), c.num(t.args[2])
		va, vb := c.iv[t.args[1]], c.iv[t.args[2]]
		lo, hi := va.lo, va.hi
		if vb.lo.Cmp(lo) < 0 {
			lo = vb.lo
		}
		if vb.hi.Cmp(hi) > 0 {
			hi = vb.hi
		}
		return tb.Ite(g, a, b), ivl{lo, hi}
	case "bvadd", "bvmul":
		if t.op == "bvmul" && !t.args[0].IsConst() && !t.args[1].IsConst() {
			return c.atom(t, true)
		}
		m := map[*Term]*big.Int{}
		k := new(big.Int)
		tb.lin(t, big.NewInt(1), m, k)
		half := new2(w - 1)
		signed := func(z *big.Int) *big.Int {
			z = new(big.Int).Mod(z, new2(w))
			if z.Cmp(half) >= 0 {
				z.Sub(z, new2(w))
			}
			return z
		}
		sk := signed(k)
		sum := []*Term{tb.IntBig(sk)}
		lo, hi := new(big.Int).Set(sk), new(big.Int).Set(sk)
		for _, a := range sortedTerms(m) {
			if a == t {
				return c.atom(t, true)
			}
			co := signed(m[a])
			n := c.num(a)
			v := c.iv[a]
			sum = append(sum, tb.IMul(tb.IntBig(co), n))
			p, q := new(big.Int).Mul(co, v.lo), new(big.Int).Mul(co, v.hi)
			if co.Sign() < 0 {
				p, q = q, p
			}
			lo.Add(lo, p)
			hi.Add(hi, q)
		}
		return wrap(tb.IAdd(sum...), lo, hi)
	case "extract":
		var h, l int
		fmt.Sscanf(t.name, "%d %d", &h, &l)
		a := c.num(t.args[0])
		v := c.iv[t.args[0]]
		if l == 0 {
			return wrap(a, v.lo, v.hi)
		}
	case "sext":
		a := c.snum(t.args[0])
		v := c.iv[t.args[0]]
		if v.hi.Cmp(new2(t.args[0].sort.W-1)) < 0 {
			return a, v
		}
		return tb.Ite(tb.ILt(a, tb.Int(0)), tb.IAdd(a, tb.IntBig(new2(w))), a), ivl{}
	case "bvlshr", "bvudiv":
		if s := t.args[1]; s.IsConst() && s.val.IsInt64() && s.val.Sign() > 0 {
			d := new(big.Int).Set(s.val)
			if t.op == "bvlshr" {
				if s.val.Int64() >= int64(w) {
					return tb.Int(0), ivl{new(big.Int), new(big.Int)}
				}
				d = new2(int(s.val.Int64()))
			}
			a := c.num(t.args[0])
			v := c.iv[t.args[0]]
			q := tb.Fresh("lq", SInt)
			r := tb.Fresh("lr", SInt)
			lo, hi := new(big.Int).Div(v.lo, d), new(big.Int).Div(v.hi, d)
			c.facts = append(c.facts, tb.Eq(a, tb.IAdd(tb.IMul(tb.IntBig(d), q), r)), tb.ILe(tb.Int(0), r), tb.ILt(r, tb.IntBig(d)), tb.ILe(tb.IntBig(lo), q), tb.ILe(q, tb.IntBig(hi)))
			return q, ivl{lo, hi}
		}
	case "bvurem", "bvand":
		var a, s *Term = t.args[0], t.args[1]
		if t.op == "bvand" && a.IsConst() {
			a, s = s, a
		}
		if s.IsConst() && s.val.Sign() > 0 {
			d := s.val
			if t.op == "bvand" {
				d = new(big.Int).Add(s.val, one)
				if d.Cmp(new2(d.BitLen()-1)) != 0 {
					break
				}
			}
			n := c.num(a)
			v := c.iv[a]
			if v.hi.Cmp(d) < 0 {
				return n, v
			}
			q := tb.Fresh("lq", SInt)
			r := tb.Fresh("lr", SInt)
			hi := new(big.Int).Sub(d, one)
			c.facts = append(c.facts, tb.Eq(n, tb.IAdd(tb.IMul(tb.IntBig(d), q), r)), tb.ILe(tb.Int(0), r), tb.ILe(r, tb.IntBig(hi)), tb.ILe(tb.Int(0), q), tb.ILe(q, tb.IntBig(v.hi)))
			return r, ivl{new(big.Int), hi}
		}
	}
	return c.atom(t, true)
}

func sortedTerms(m map[*Term]*big.Int) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

// quick decides satisfiability: first in linear integer arithmetic, then in bit-vectors.
func (x *X) quick(as []*Term, ms int) (Result, string) {
	linear := false
	walk(map[*Term]bool{}, func(t *Term) {
		if t.op == "app" && t.name == "vlen" {
			linear = true
		}
	}, as...)
	if linear {
		la, exact := linRelax(x.tb, as)
		r := quickCheck(la, ms)
		if r == Unsat || r == Sat && exact {
			return r, "z3-5.3.2 (LIA)"
		}
	}
	return quickCheck(as, ms), "z3-5.3.2"
}
