package main

// A small built-in decision procedure for comparisons between linear terms: intervals plus at most two
// hypotheses. It only ever answers what follows; everything else goes to the SMT solvers.

import (
	"math/big"
	"strings"
)

type lform struct {
	m map[*Term]*big.Int
	k *big.Int
}

type fastCtx struct {
	x     *X
	units map[*Term]*big.Int
	hyps  []lform
	memo  map[*Term]*lform
	rawm  map[*Term]*lform
	depth int
}

func (f *lform) add(g *lform, c int64) *lform {
	r := &lform{map[*Term]*big.Int{}, new(big.Int).Add(f.k, new(big.Int).Mul(big.NewInt(c), g.k))}
	for t, v := range f.m {
		r.m[t] = v
	}
	for t, v := range g.m {
		n := new(big.Int).Mul(v, big.NewInt(c))
		if o, ok := r.m[t]; ok {
			n.Add(n, o)
		}
		if n.Sign() == 0 {
			delete(r.m, t)
		} else {
			r.m[t] = n
		}
	}
	return r
}

func (c *fastCtx) rng(t *Term) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int).Sub(new2(t.sort.W), one)
	if t.op == "app" {
		if t.name == "vlen" {
			_, h := c.bounds(c.form(t.args[0]))
			l, _ := c.bounds(c.form(t.args[0]))
			return big.NewInt(vlenOf(l)), big.NewInt(vlenOf(h))
		}
		if t.name == "declen" {
			return big.NewInt(1), big.NewInt(20)
		}
		if strings.HasPrefix(t.name, "len_") {
			hi = new(big.Int).Sub(new2(40), one)
		}
	}
	if t.op == "ite" && t.args[1].IsConst() && t.args[2].IsConst() {
		lo, hi = t.args[1].val, t.args[2].val
		if lo.Cmp(hi) > 0 {
			lo, hi = hi, lo
		}
	}
	if u, ok := c.units[t]; ok && u.Cmp(hi) <= 0 {
		hi = new(big.Int).Sub(u, one)
	}
	return
}

func (c *fastCtx) bounds(f *lform) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(f.k), new(big.Int).Set(f.k)
	for t, co := range f.m {
		l, h := c.rng(t)
		p, q := new(big.Int).Mul(co, l), new(big.Int).Mul(co, h)
		if co.Sign() < 0 {
			p, q = q, p
		}
		lo.Add(lo, p)
		hi.Add(hi, q)
	}
	return
}

func constForm(v *big.Int) *lform { return &lform{map[*Term]*big.Int{}, v} }

// form is the unsigned value of t as a linear form over atoms that do not wrap.
func (c *fastCtx) form(t *Term) *lform {
	if r, ok := c.memo[t]; ok {
		return r
	}
	r := c.form1(t)
	c.memo[t] = r
	return r
}

func (c *fastCtx) form1(t *Term) *lform {
	w := t.sort.W
	atom := func() *lform { return &lform{map[*Term]*big.Int{t: one}, new(big.Int)} }
	switch t.op {
	case "const":
		return constForm(t.val)
	case "zext":
		return c.form(t.args[0])
	case "extract":
		if strings.HasSuffix(t.name, " 0") {
			f := c.form(t.args[0])
			if _, hi := c.bounds(f); hi.Cmp(new2(w)) < 0 {
				return f
			}
		}
	case "bvadd", "bvmul":
		f := c.linOf(t)
		if f == nil {
			return atom()
		}
		lo, hi := c.bounds(f)
		if hi.Cmp(new2(w)) < 0 && (lo.Sign() >= 0 || c.ge0(f)) {
			return f
		}
	}
	return atom()
}

// raw is a linear form congruent to t modulo 2^w, of absolute value below 2^(w-1) by its bounds.
func (c *fastCtx) raw(t *Term) *lform {
	if r, ok := c.rawm[t]; ok {
		return r
	}
	r := c.form(t)
	if t.op == "bvadd" || t.op == "bvmul" {
		if f := c.linOf(t); f != nil {
			lo, hi := c.bounds(f)
			h := new2(t.sort.W - 1)
			if hi.Cmp(h) < 0 && new(big.Int).Neg(lo).Cmp(h) < 0 {
				r = f
			}
		}
	}
	if _, hi := c.bounds(r); hi.Cmp(new2(t.sort.W-1)) >= 0 {
		r = nil
	}
	c.rawm[t] = r
	return r
}

func (c *fastCtx) linOf(t *Term) *lform {
	w := t.sort.W
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	c.x.tb.lin(t, big.NewInt(1), m, k)
	if _, ok := m[t]; ok {
		return nil
	}
	half := new2(w - 1)
	signed := func(z *big.Int) *big.Int {
		z = new(big.Int).Mod(z, new2(w))
		if z.Cmp(half) >= 0 {
			z.Sub(z, new2(w))
		}
		return z
	}
	f := constForm(signed(k))
	for _, a := range sortedTerms(m) {
		g := c.form(a)
		co := signed(m[a])
		s := &lform{map[*Term]*big.Int{}, new(big.Int).Mul(g.k, co)}
		for u, v := range g.m {
			s.m[u] = new(big.Int).Mul(v, co)
		}
		f = f.add(s, 1)
	}
	return f
}

// ge0: the form is never negative.
func (c *fastCtx) ge0(f *lform) bool {
	if lo, _ := c.bounds(f); lo.Sign() >= 0 {
		return true
	}
	shares := func(h *lform) bool {
		for t, v := range f.m {
			if u, ok := h.m[t]; ok && u.Sign() == v.Sign() {
				return true
			}
		}
		return false
	}
	for i := range c.hyps {
		h := &c.hyps[i]
		if !shares(h) {
			continue
		}
		g := f.add(h, -1)
		if lo, _ := c.bounds(g); lo.Sign() >= 0 {
			return true
		}
		if c.depth == 0 && len(c.hyps) < 60 {
			c.depth++
			ok := c.ge0(g)
			c.depth--
			if ok {
				return true
			}
		}
	}
	return false
}

func (c *fastCtx) hyp(t *Term) {
	neg := false
	if t.op == "not" {
		neg, t = true, t.args[0]
	}
	if len(t.args) != 2 || t.args[0].sort.K != KBV {
		return
	}
	switch t.op {
	case "bvslt":
		for _, a := range t.args {
			if _, hi := c.bounds(c.form(a)); hi.Cmp(new2(a.sort.W-1)) >= 0 {
				return
			}
		}
		fallthrough
	case "bvult":
		a, b := c.form(t.args[0]), c.form(t.args[1])
		if t.op == "bvult" && !neg {
			if ra := c.raw(t.args[0]); ra != nil && c.raw(t.args[1]) == b {
				// an unsigned bound below 2^(w-1) excludes negative values
				c.hyps = append(c.hyps, *ra, *b.add(ra, -1).add(constForm(one), -1))
				return
			}
		}
		if neg { // b <= a
			c.hyps = append(c.hyps, *a.add(b, -1))
		} else { // a+1 <= b
			c.hyps = append(c.hyps, *b.add(a, -1).add(constForm(one), -1))
		}
	case "=":
		if !neg {
			a, b := c.raw(t.args[0]), c.raw(t.args[1])
			if a == nil || b == nil {
				a, b = c.form(t.args[0]), c.form(t.args[1])
			}
			c.hyps = append(c.hyps, *a.add(b, -1), *b.add(a, -1))
		}
	}
}

func (x *X) newFast() *fastCtx {
	c := &fastCtx{x: x, units: map[*Term]*big.Int{}, memo: map[*Term]*lform{}, rawm: map[*Term]*lform{}}
	for _, p := range x.st.pc {
		if p.op == "bvult" && p.args[1].IsConst() {
			if o, ok := c.units[p.args[0]]; !ok || p.args[1].val.Cmp(o) < 0 {
				c.units[p.args[0]] = p.args[1].val
			}
		}
		if p.op == "=" && p.args[0].sort.K == KBV {
			for i := 0; i < 2; i++ {
				if v := p.args[i]; v.IsConst() {
					c.units[p.args[1-i]] = new(big.Int).Add(v.val, one)
				}
			}
		}
	}
	for _, p := range x.st.pc {
		if p.op == "bvult" && !p.args[1].IsConst() && (p.args[0].op == "var" || p.args[0].op == "app") {
			_, hi := c.bounds(c.form(p.args[1]))
			if o, ok := c.units[p.args[0]]; !ok || hi.Cmp(o) < 0 {
				c.units[p.args[0]] = hi
				c.memo, c.rawm = map[*Term]*lform{}, map[*Term]*lform{}
			}
		}
	}
	for _, p := range x.st.pc {
		c.hyp(p)
	}
	return c
}

func (c *fastCtx) decide(t *Term) int {
	switch t.op {
	case "const":
		if t.IsTrue() {
			return 1
		}
		return -1
	case "not":
		return -c.decide(t.args[0])
	case "and", "or":
		s := 1
		if t.op == "or" {
			s = -1
		}
		all := true
		for _, a := range t.args {
			switch c.decide(a) {
			case -s:
				return -s
			case 0:
				all = false
			}
		}
		if all {
			return s
		}
		return 0
	}
	if len(t.args) != 2 || t.args[0].sort.K != KBV {
		return 0
	}
	switch t.op {
	case "bvslt", "bvult":
		a, b := c.form(t.args[0]), c.form(t.args[1])
		if t.op == "bvslt" {
			for _, f := range []*lform{a, b} {
				if _, hi := c.bounds(f); hi.Cmp(new2(t.args[0].sort.W-1)) >= 0 {
					return 0
				}
			}
		}
		if c.ge0(b.add(a, -1).add(constForm(one), -1)) {
			return 1
		}
		if c.ge0(a.add(b, -1)) {
			return -1
		}
		if t.op == "bvult" {
			// the left side may be a difference that wraps when negative
			ra, rb := c.raw(t.args[0]), c.raw(t.args[1])
			if ra != nil && rb != nil && rb == b {
				if c.ge0(constForm(big.NewInt(-1)).add(ra, -1)) || c.ge0(ra.add(rb, -1)) {
					return -1
				}
			}
			if ra != nil && ra == a && rb != nil && rb != b {
				// the right side may be negative: then it is larger than anything below 2^(w-1)
				if c.ge0(constForm(big.NewInt(-1)).add(rb, -1)) {
					return 1
				}
			}
		}
	case "=":
		a, b := c.raw(t.args[0]), c.raw(t.args[1])
		if a == nil || b == nil {
			a, b = c.form(t.args[0]), c.form(t.args[1])
		}
		d := a.add(b, -1)
		if len(d.m) == 0 {
			if d.k.Sign() == 0 {
				return 1
			}
			return -1
		}
		e := b.add(a, -1)
		if c.ge0(d.add(constForm(one), -1)) || c.ge0(e.add(constForm(one), -1)) {
			return -1
		}
		if c.ge0(d) && c.ge0(e) {
			return 1
		}
	}
	return 0
}

// fastDecide answers without a solver when it can.
func (x *X) fastDecide(t *Term) int {
	n := len(x.st.pc)
	if x.fast == nil || x.fastN != n || n > 0 && x.fastLast != x.st.pc[n-1] || x.fastSt != x.st {
		x.fast = x.newFast()
		x.fastN = n
		x.fastSt = x.st
		if n > 0 {
			x.fastLast = x.st.pc[n-1]
		}
	}
	r := x.fast.decide(t)
	return r
}

func vlenOf(v *big.Int) int64 {
	n := int64(1)
	for i := 1; i < 10 && v.BitLen() > 7*i; i++ {
		n++
	}
	return n
}
