package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KInt
	KU // uninterpreted sort
)

type Sort struct {
	K    Kind
	W    int
	Name string
}

func (s Sort) String() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return "(_ BitVec " + strconv.Itoa(s.W) + ")"
	case KInt:
		return "Int"
	}
	return s.Name
}

var (
	SBool  = Sort{K: KBool}
	SInt   = Sort{K: KInt}
	SIface = Sort{K: KU, Name: "Iface"}
	SStr   = Sort{K: KU, Name: "Str"}
	SBytes = Sort{K: KU, Name: "Bytes"}
	SVec   = Sort{K: KU, Name: "Vec"}
	SFunc  = Sort{K: KU, Name: "Func"}
	SRef   = Sort{K: KU, Name: "Ref"}
)

func SBV(w int) Sort { return Sort{K: KBV, W: w} }

type Term struct {
	id   int
	op   string // "const","var","app", or an SMT operator
	sort Sort
	args []*Term
	name string // var/app name, or operator parameters (extract etc.)
	syms map[string]bool
	val  *big.Int
}

func (t *Term) IsConst() bool { return t.op == "const" }
func (t *Term) IsTrue() bool  { return t.op == "const" && t.sort.K == KBool && t.val.Sign() != 0 }
func (t *Term) IsFalse() bool { return t.op == "const" && t.sort.K == KBool && t.val.Sign() == 0 }
func (t *Term) U64() uint64   { return t.val.Uint64() }
func (t *Term) String() string {
	return t.str(12)
}
func (t *Term) str(d int) string {
	switch t.op {
	case "const":
		if t.sort.K == KBool {
			return strconv.FormatBool(t.val.Sign() != 0)
		}
		return t.val.String()
	case "var":
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var b strings.Builder
	b.WriteByte('(')
	if t.op == "app" {
		b.WriteString(t.name)
	} else {
		b.WriteString(t.op)
		if t.name != "" {
			b.WriteString("[" + t.name + "]")
		}
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(a.str(d - 1))
	}
	b.WriteByte(')')
	return b.String()
}

// TB is a term builder; one per verified function, so that runs are deterministic.
type TB struct {
	tab   map[string]*Term
	next  int
	fresh map[string]int
}

func NewTB() *TB { return &TB{tab: map[string]*Term{}, fresh: map[string]int{}} }

func (b *TB) mk(op string, s Sort, name string, val *big.Int, args ...*Term) *Term {
	var k strings.Builder
	k.WriteString(op)
	k.WriteByte('|')
	k.WriteString(name)
	k.WriteByte('|')
	if s.K == KBV {
		k.WriteString(strconv.Itoa(s.W))
	} else {
		k.WriteString(s.String())
	}
	if val != nil {
		k.WriteByte('#')
		k.WriteString(val.Text(16))
	}
	for _, a := range args {
		k.WriteByte(',')
		k.WriteString(strconv.Itoa(a.id))
	}
	key := k.String()
	if t, ok := b.tab[key]; ok {
		return t
	}
	b.next++
	t := &Term{id: b.next, op: op, sort: s, name: name, val: val, args: append([]*Term(nil), args...)}
	b.tab[key] = t
	return t
}

var one = big.NewInt(1)

func mask(w int) *big.Int {
	m := new(big.Int).Lsh(one, uint(w))
	return m.Sub(m, one)
}

func (b *TB) BVBig(w int, v *big.Int) *Term {
	return b.mk("const", SBV(w), "", new(big.Int).And(v, mask(w)))
}
func (b *TB) BV(w int, v uint64) *Term { return b.BVBig(w, new(big.Int).SetUint64(v)) }
func (b *TB) BVi(w int, v int64) *Term { return b.BVBig(w, big.NewInt(v)) }
func (b *TB) Int(v int64) *Term        { return b.mk("const", SInt, "", big.NewInt(v)) }
func (b *TB) IntBig(v *big.Int) *Term  { return b.mk("const", SInt, "", new(big.Int).Set(v)) }
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.mk("const", SBool, "", big.NewInt(1))
	}
	return b.mk("const", SBool, "", big.NewInt(0))
}
func (b *TB) True() *Term                   { return b.Bool(true) }
func (b *TB) False() *Term                  { return b.Bool(false) }
func (b *TB) Var(name string, s Sort) *Term { return b.mk("var", s, name, nil) }
func (b *TB) Fresh(hint string, s Sort) *Term {
	n := b.fresh[hint]
	b.fresh[hint] = n + 1
	return b.Var(fmt.Sprintf("%s!%d", hint, n), s)
}
func (b *TB) FreshName(hint string) string {
	n := b.fresh[hint]
	b.fresh[hint] = n + 1
	return fmt.Sprintf("%s!%d", hint, n)
}
func (b *TB) App(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return b.Var(name, s)
	}
	return b.mk("app", s, name, nil, args...)
}

// ---- boolean ----

func (b *TB) Not(a *Term) *Term {
	if a.IsConst() {
		return b.Bool(a.IsFalse())
	}
	if a.op == "not" {
		return a.args[0]
	}
	return b.mk("not", SBool, "", nil, a)
}

func (b *TB) And(as ...*Term) *Term { return b.nary("and", as, true) }
func (b *TB) Or(as ...*Term) *Term  { return b.nary("or", as, false) }

func (b *TB) nary(op string, as []*Term, unit bool) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.IsConst() {
			return t.IsTrue() == unit
		}
		if t.op == op {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		n := b.Not(t)
		if seen[n.id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return b.Bool(!unit)
		}
	}
	switch len(out) {
	case 0:
		return b.Bool(unit)
	case 1:
		return out[0]
	}
	return b.mk(op, SBool, "", nil, out...)
}

func (b *TB) Implies(a, c *Term) *Term { return b.Or(b.Not(a), c) }

func (b *TB) Eq(a, c *Term) *Term {
	if a == c {
		return b.True()
	}
	if a.sort != c.sort {
		panic(fmt.Sprintf("Eq: sort mismatch %v:%v vs %v:%v", a, a.sort, c, c.sort))
	}
	if a.IsConst() && c.IsConst() {
		return b.Bool(a.val.Cmp(c.val) == 0)
	}
	if a.sort.K == KBool {
		if a.IsConst() {
			a, c = c, a
		}
		if c.IsTrue() {
			return a
		}
		if c.IsFalse() {
			return b.Not(a)
		}
	}
	if a.sort.K == KBV {
		d := b.Sub(a, c)
		if d.IsConst() {
			return b.Bool(d.val.Sign() == 0)
		}
	}
	// ite(c, k1, k2) = k
	if c.op == "ite" {
		a, c = c, a
	}
	if a.op == "ite" && c.IsConst() && a.args[1].IsConst() && a.args[2].IsConst() {
		x, y := b.Eq(a.args[1], c), b.Eq(a.args[2], c)
		return b.Ite(a.args[0], x, y)
	}
	if a.id > c.id {
		a, c = c, a
	}
	return b.mk("=", SBool, "", nil, a, c)
}

func (b *TB) Ne(a, c *Term) *Term { return b.Not(b.Eq(a, c)) }

func (b *TB) Ite(c, x, y *Term) *Term {
	if c.IsTrue() {
		return x
	}
	if c.IsFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Ite: sort mismatch %v vs %v", x.sort, y.sort))
	}
	if x.sort.K == KBool {
		if x.IsTrue() && y.IsFalse() {
			return c
		}
		if x.IsFalse() && y.IsTrue() {
			return b.Not(c)
		}
		if x.IsConst() {
			if x.IsTrue() {
				return b.Or(c, y)
			}
			return b.And(b.Not(c), y)
		}
		if y.IsConst() {
			if y.IsTrue() {
				return b.Or(b.Not(c), x)
			}
			return b.And(c, x)
		}
	}
	return b.mk("ite", x.sort, "", nil, c, x, y)
}

// ---- bit vectors ----

// linear form of a BV term: sum of coef*atom + const
func (b *TB) lin(t *Term, coef *big.Int, m map[*Term]*big.Int, k *big.Int) {
	switch t.op {
	case "const":
		k.Add(k, new(big.Int).Mul(coef, t.val))
	case "bvadd":
		for _, a := range t.args {
			b.lin(a, coef, m, k)
		}
	case "bvmul":
		if len(t.args) == 2 && t.args[0].IsConst() {
			b.lin(t.args[1], new(big.Int).Mul(coef, t.args[0].val), m, k)
			return
		}
		fallthrough
	default:
		if c, ok := m[t]; ok {
			m[t] = new(big.Int).Add(c, coef)
		} else {
			m[t] = new(big.Int).Set(coef)
		}
	}
}

func (b *TB) fromLin(w int, m map[*Term]*big.Int, k *big.Int) *Term {
	mk := mask(w)
	b.divRem(w, m)
	b.remRem(w, m)
	var atoms []*Term
	for t, c := range m {
		c.And(c, mk)
		if c.Sign() != 0 {
			atoms = append(atoms, t)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var args []*Term
	for _, t := range atoms {
		c := m[t]
		if c.Cmp(one) == 0 {
			args = append(args, t)
		} else {
			args = append(args, b.mk("bvmul", SBV(w), "", nil, b.BVBig(w, c), t))
		}
	}
	kk := new(big.Int).And(k, mk)
	if kk.Sign() != 0 || len(args) == 0 {
		args = append(args, b.BVBig(w, kk))
	}
	if len(args) == 1 {
		return args[0]
	}
	return b.mk("bvadd", SBV(w), "", nil, args...)
}

// divRem writes x - n*(x/n) as x%n.
func (b *TB) divRem(w int, m map[*Term]*big.Int) {
	if len(m) < 2 {
		return
	}
	var ds []*Term
	for t, c := range m {
		if t.op == "bvudiv" && t.args[1].IsConst() && t.args[1].val.Sign() > 0 && c.Sign() != 0 {
			ds = append(ds, t)
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].id < ds[j].id })
	for _, t := range ds {
		n := t.args[1].val
		var bases []*Term
		var ks []*big.Int
		if c, ok := m[t.args[0]]; ok && c.Sign() != 0 {
			bases, ks = append(bases, t.args[0]), append(ks, n)
		}
		for _, u := range ds {
			if u != t && u.args[0] == t.args[0] && u.args[1].val.Cmp(n) < 0 {
				if q, r := new(big.Int).QuoRem(n, u.args[1].val, new(big.Int)); r.Sign() == 0 {
					bases, ks = append(bases, u), append(ks, q)
				}
			}
		}
		for i, u := range bases {
			z := new(big.Int).Mul(m[u], ks[i])
			z.Add(z, m[t])
			if z.And(z, mask(w)).Sign() != 0 || new(big.Int).And(m[u], mask(w)).Sign() == 0 {
				continue
			}
			r := b.BVBin("bvurem", u, b.BVBig(w, ks[i]))
			c := m[u]
			delete(m, u)
			delete(m, t)
			b.lin(r, c, m, new(big.Int))
			break
		}
	}
}

// remRem writes B%(n*k) - n*(B/n % k) as B%n, where B may itself be a quotient.
func (b *TB) remRem(w int, m map[*Term]*big.Int) {
	if len(m) < 2 {
		return
	}
	quo := func(t *Term) (*Term, *big.Int) {
		if t.op == "bvudiv" && t.args[1].IsConst() && t.args[1].val.Sign() > 0 {
			return t.args[0], t.args[1].val
		}
		return t, one
	}
	var rs []*Term
	for t, c := range m {
		if t.op == "bvurem" && t.args[1].IsConst() && t.args[1].val.Sign() > 0 && c.Sign() != 0 {
			rs = append(rs, t)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
	for _, t := range rs {
		a, N := quo(t.args[0])
		for _, u := range rs {
			if u == t || m[t] == nil || m[u] == nil {
				continue
			}
			B := u.args[0]
			a2, d := quo(B)
			n, r := new(big.Int).QuoRem(N, d, new(big.Int))
			if a2 != a || r.Sign() != 0 || n.Cmp(one) <= 0 || new(big.Int).Mul(n, t.args[1].val).Cmp(u.args[1].val) != 0 {
				continue
			}
			z := new(big.Int).Mul(m[u], n)
			z.Add(z, m[t])
			if z.And(z, mask(w)).Sign() != 0 {
				continue
			}
			c := m[u]
			delete(m, u)
			delete(m, t)
			b.lin(b.BVBin("bvurem", B, b.BVBig(w, n)), c, m, new(big.Int))
		}
	}
}

func (b *TB) Add(as ...*Term) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	for _, a := range as {
		b.lin(a, one, m, k)
	}
	return b.fromLin(as[0].sort.W, m, k)
}

var minusOne = big.NewInt(-1)

func (b *TB) Sub(a, c *Term) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	b.lin(a, one, m, k)
	b.lin(c, minusOne, m, k)
	return b.fromLin(a.sort.W, m, k)
}

func (b *TB) Neg(a *Term) *Term { return b.Sub(b.BV(a.sort.W, 0), a) }

func (b *TB) Mul(a, c *Term) *Term {
	if c.IsConst() {
		a, c = c, a
	}
	if a.IsConst() {
		m := map[*Term]*big.Int{}
		k := new(big.Int)
		b.lin(c, a.val, m, k)
		return b.fromLin(a.sort.W, m, k)
	}
	if a.id > c.id {
		a, c = c, a
	}
	return b.mk("bvmul", a.sort, "", nil, a, c)
}

func sgn(t *Term) *big.Int {
	v := new(big.Int).Set(t.val)
	if v.Bit(t.sort.W-1) == 1 {
		v.Sub(v, new(big.Int).Lsh(one, uint(t.sort.W)))
	}
	return v
}

// BVBin builds any other binary bit-vector operator.
func (b *TB) BVBin(op string, a, c *Term) *Term {
	if a.sort != c.sort {
		panic(fmt.Sprintf("%s: sort mismatch %v %v", op, a.sort, c.sort))
	}
	w := a.sort.W
	switch op {
	case "bvadd":
		return b.Add(a, c)
	case "bvsub":
		return b.Sub(a, c)
	case "bvmul":
		return b.Mul(a, c)
	}
	if a.IsConst() && c.IsConst() {
		x, y := a.val, c.val
		z := new(big.Int)
		ok := true
		switch op {
		case "bvand":
			z.And(x, y)
		case "bvor":
			z.Or(x, y)
		case "bvxor":
			z.Xor(x, y)
		case "bvudiv":
			if y.Sign() == 0 {
				ok = false
			} else {
				z.Div(x, y)
			}
		case "bvurem":
			if y.Sign() == 0 {
				ok = false
			} else {
				z.Mod(x, y)
			}
		case "bvsdiv":
			if y.Sign() == 0 {
				ok = false
			} else {
				z.Quo(sgn(a), sgn(c))
			}
		case "bvsrem":
			if y.Sign() == 0 {
				ok = false
			} else {
				z.Rem(sgn(a), sgn(c))
			}
		case "bvshl":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				z.SetInt64(0)
			} else {
				z.Lsh(x, uint(y.Uint64()))
			}
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				z.SetInt64(0)
			} else {
				z.Rsh(x, uint(y.Uint64()))
			}
		case "bvashr":
			s := y.Uint64()
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				s = uint64(w)
			}
			z.Rsh(sgn(a), uint(s))
		default:
			ok = false
		}
		if ok {
			return b.BVBig(w, z)
		}
	}
	zero := func(t *Term) bool { return t.IsConst() && t.val.Sign() == 0 }
	ones := func(t *Term) bool { return t.IsConst() && t.val.Cmp(mask(w)) == 0 }
	switch op {
	case "bvand":
		if zero(a) || ones(c) || a == c {
			return a
		}
		if zero(c) || ones(a) {
			return c
		}
	case "bvor":
		if zero(c) || a == c {
			return a
		}
		if zero(a) {
			return c
		}
		if ones(a) {
			return a
		}
		if ones(c) {
			return c
		}
		if r := b.orConcat(a, c); r != nil {
			return r
		}
		if r := b.orConcat(c, a); r != nil {
			return r
		}
	case "bvxor":
		if zero(c) {
			return a
		}
		if zero(a) {
			return c
		}
		if a == c {
			return b.BV(w, 0)
		}
		// zigzag of a sign-extended value is the zero-extended zigzag of the value
		for i := 0; i < 2; i++ {
			if a.op == "bvmul" && a.args[0].IsConst() && a.args[0].val.Cmp(big.NewInt(2)) == 0 && a.args[1].op == "sext" &&
				c.op == "bvashr" && c.args[0] == a.args[1] && c.args[1].IsConst() && c.args[1].val.Cmp(big.NewInt(int64(w-1))) == 0 {
				y := a.args[1].args[0]
				n := y.sort.W
				return b.Zext(w, b.BVBin("bvxor", b.Mul(b.BV(n, 2), y), b.BVBin("bvashr", y, b.BV(n, uint64(n-1)))))
			}
			a, c = c, a
		}
	case "bvshl", "bvlshr", "bvashr":
		if zero(c) || zero(a) {
			return a
		}
		if c.IsConst() && op == "bvshl" && c.val.IsUint64() && c.U64() < uint64(w) {
			return b.Mul(b.BVBig(w, new(big.Int).Lsh(one, uint(c.U64()))), a)
		}
	case "bvudiv":
		if c.IsConst() && c.val.Cmp(one) == 0 {
			return a
		}
		if c.IsConst() && c.val.Sign() > 0 && len(a.args) == 2 && a.args[1].IsConst() && a.args[1].val.Sign() > 0 {
			switch a.op {
			case "bvudiv": // a/m/n = a/(m*n)
				if z := new(big.Int).Mul(c.val, a.args[1].val); z.BitLen() <= w {
					return b.BVBin("bvudiv", a.args[0], b.BVBig(w, z))
				}
			case "bvurem": // a%(m*n)/n = a/n%m
				if q, r := new(big.Int).QuoRem(a.args[1].val, c.val, new(big.Int)); r.Sign() == 0 && q.Sign() > 0 {
					return b.BVBin("bvurem", b.BVBin("bvudiv", a.args[0], c), b.BVBig(w, q))
				}
			}
		}
	case "bvurem":
		if c.IsConst() && c.val.Sign() > 0 && a.op == "bvurem" && a.args[1].IsConst() && a.args[1].val.Sign() > 0 {
			if r := new(big.Int).Rem(a.args[1].val, c.val); r.Sign() == 0 { // a%(m*n)%n = a%n
				return b.BVBin("bvurem", a.args[0], c)
			}
		}
	}
	switch op {
	case "bvand", "bvor", "bvxor":
		if a.id > c.id {
			a, c = c, a
		}
	}
	return b.mk(op, a.sort, "", nil, a, c)
}

// orConcat: lo | hi<<k is a concatenation when lo is an extended k-bit value.
func (b *TB) orConcat(lo, hi *Term) *Term {
	if lo.op != "zext" || hi.op != "bvmul" || len(hi.args) != 2 || !hi.args[0].IsConst() {
		return nil
	}
	k := lo.args[0].sort.W
	h := hi.args[1]
	if hi.args[0].val.BitLen() != k+1 || new(big.Int).Lsh(one, uint(k)).Cmp(hi.args[0].val) != 0 || h.op != "zext" {
		return nil
	}
	if w := h.args[0].sort.W; w+k <= lo.sort.W {
		return b.Zext(lo.sort.W, b.Concat(h.args[0], lo.args[0]))
	}
	return nil
}

func (b *TB) BVNot(a *Term) *Term {
	if a.IsConst() {
		return b.BVBig(a.sort.W, new(big.Int).Xor(a.val, mask(a.sort.W)))
	}
	return b.mk("bvnot", a.sort, "", nil, a)
}

func (b *TB) Ult(a, c *Term) *Term {
	if a == c {
		return b.False()
	}
	if a.IsConst() && c.IsConst() {
		return b.Bool(a.val.Cmp(c.val) < 0)
	}
	if c.IsConst() && c.val.Sign() == 0 {
		return b.False()
	}
	if c.IsConst() && c.val.Cmp(one) == 0 {
		return b.Eq(a, b.BV(a.sort.W, 0))
	}
	// zext(x) < const
	if a.op == "zext" && c.IsConst() {
		iw := a.args[0].sort.W
		if c.val.Cmp(mask(iw)) > 0 {
			return b.True()
		}
		return b.Ult(a.args[0], b.BVBig(iw, c.val))
	}
	return b.mk("bvult", SBool, "", nil, a, c)
}
func (b *TB) Ule(a, c *Term) *Term { return b.Not(b.Ult(c, a)) }
func (b *TB) Slt(a, c *Term) *Term {
	if a == c {
		return b.False()
	}
	if a.IsConst() && c.IsConst() {
		return b.Bool(sgn(a).Cmp(sgn(c)) < 0)
	}
	return b.mk("bvslt", SBool, "", nil, a, c)
}
func (b *TB) Sle(a, c *Term) *Term { return b.Not(b.Slt(c, a)) }

func (b *TB) Zext(w int, a *Term) *Term {
	if a.sort.W == w {
		return a
	}
	if a.IsConst() {
		return b.BVBig(w, a.val)
	}
	if a.op == "zext" {
		a = a.args[0]
	}
	return b.mk("zext", SBV(w), strconv.Itoa(w-a.sort.W), nil, a)
}

// maxOf bounds the unsigned value of a term.
func (b *TB) maxOf(t *Term) *big.Int {
	all := mask(t.sort.W)
	least := func(v *big.Int) *big.Int {
		if v.Cmp(all) > 0 {
			return all
		}
		return v
	}
	switch t.op {
	case "const":
		return t.val
	case "zext":
		return b.maxOf(t.args[0])
	case "bvand":
		v := all
		for _, a := range t.args {
			if u := b.maxOf(a); u.Cmp(v) < 0 {
				v = u
			}
		}
		return v
	case "bvlshr":
		if c := t.args[1]; c.IsConst() && c.val.IsInt64() && c.val.Int64() < int64(t.sort.W) {
			return new(big.Int).Rsh(b.maxOf(t.args[0]), uint(c.val.Int64()))
		}
	case "bvadd":
		v := new(big.Int)
		for _, a := range t.args {
			v = new(big.Int).Add(v, b.maxOf(a))
		}
		return least(v)
	case "bvmul":
		v := big.NewInt(1)
		for _, a := range t.args {
			v = new(big.Int).Mul(v, b.maxOf(a))
		}
		return least(v)
	}
	return all
}

// zextSum is zext, moved into sums that do not wrap around.
func (b *TB) zextSum(w int, t *Term) *Term {
	if t.op == "zext" {
		return b.zextSum(w, t.args[0])
	}
	if t.op != "bvadd" && t.op != "bvmul" {
		return b.Zext(w, t)
	}
	m, k := map[*Term]*big.Int{}, new(big.Int)
	b.lin(t, one, m, k)
	k.And(k, mask(t.sort.W))
	sum := new(big.Int).Set(k)
	for a, c := range m {
		c.And(c, mask(t.sort.W))
		sum.Add(sum, new(big.Int).Mul(c, b.maxOf(a)))
	}
	if sum.Cmp(mask(t.sort.W)) > 0 {
		return b.Zext(w, t)
	}
	out := map[*Term]*big.Int{}
	for a, c := range m {
		b.lin(b.zextSum(w, a), c, out, k)
	}
	return b.fromLin(w, out, k)
}
func (b *TB) Sext(w int, a *Term) *Term {
	if a.sort.W == w {
		return a
	}
	if a.IsConst() {
		return b.BVBig(w, sgn(a))
	}
	if a.op == "zext" {
		return b.Zext(w, a.args[0])
	}
	return b.mk("sext", SBV(w), strconv.Itoa(w-a.sort.W), nil, a)
}
func (b *TB) Extract(hi, lo int, a *Term) *Term {
	if lo == 0 && hi == a.sort.W-1 {
		return a
	}
	w := hi - lo + 1
	if a.IsConst() {
		return b.BVBig(w, new(big.Int).Rsh(a.val, uint(lo)))
	}
	switch a.op {
	case "extract":
		l0, _ := strconv.Atoi(a.name[strings.IndexByte(a.name, ' ')+1:])
		return b.Extract(hi+l0, lo+l0, a.args[0])
	case "zext", "sext":
		iw := a.args[0].sort.W
		if hi < iw {
			return b.Extract(hi, lo, a.args[0])
		}
		if a.op == "zext" && lo >= iw {
			return b.BV(w, 0)
		}
		if a.op == "zext" && lo == 0 {
			return b.Zext(w, a.args[0])
		}
	case "bvand", "bvor", "bvxor":
		return b.BVBin(a.op, b.Extract(hi, lo, a.args[0]), b.Extract(hi, lo, a.args[1]))
	case "bvadd":
		if lo == 0 {
			var as []*Term
			for _, x := range a.args {
				as = append(as, b.Extract(hi, 0, x))
			}
			return b.Add(as...)
		}
	case "bvmul":
		if lo == 0 {
			return b.Mul(b.Extract(hi, 0, a.args[0]), b.Extract(hi, 0, a.args[1]))
		}
	case "bvlshr":
		if a.args[1].IsConst() && a.args[1].val.IsInt64() {
			s := int(a.args[1].val.Int64())
			if hi+s < a.sort.W {
				return b.Extract(hi+s, lo+s, a.args[0])
			}
			if lo+s < a.sort.W {
				return b.Zext(w, b.Extract(a.sort.W-1, lo+s, a.args[0]))
			}
			return b.BV(w, 0)
		}
	case "concat":
		lw := a.args[1].sort.W
		if hi < lw {
			return b.Extract(hi, lo, a.args[1])
		}
		if lo >= lw {
			return b.Extract(hi-lw, lo-lw, a.args[0])
		}
	case "ite":
		x, y := b.Extract(hi, lo, a.args[1]), b.Extract(hi, lo, a.args[2])
		return b.Ite(a.args[0], x, y)
	}
	return b.mk("extract", SBV(w), fmt.Sprintf("%d %d", hi, lo), nil, a)
}
func (b *TB) Concat(hi, lo *Term) *Term {
	w := hi.sort.W + lo.sort.W
	if hi.IsConst() && lo.IsConst() {
		return b.BVBig(w, new(big.Int).Or(new(big.Int).Lsh(hi.val, uint(lo.sort.W)), lo.val))
	}
	return b.mk("concat", SBV(w), "", nil, hi, lo)
}

// Conv converts a BV to width w, sign-extending when signed.
func (b *TB) Conv(a *Term, w int, signed bool) *Term {
	switch {
	case a.sort.W == w:
		return a
	case a.sort.W > w:
		return b.Extract(w-1, 0, a)
	case signed:
		return b.Sext(w, a)
	}
	return b.Zext(w, a)
}

// ---- mathematical integers ----

func (b *TB) ilin(t *Term, coef *big.Int, m map[*Term]*big.Int, k *big.Int) {
	switch t.op {
	case "const":
		k.Add(k, new(big.Int).Mul(coef, t.val))
	case "+":
		for _, a := range t.args {
			b.ilin(a, coef, m, k)
		}
	case "*":
		if len(t.args) == 2 && t.args[0].IsConst() {
			b.ilin(t.args[1], new(big.Int).Mul(coef, t.args[0].val), m, k)
			return
		}
		fallthrough
	default:
		if c, ok := m[t]; ok {
			m[t] = new(big.Int).Add(c, coef)
		} else {
			m[t] = new(big.Int).Set(coef)
		}
	}
}
func (b *TB) fromILin(m map[*Term]*big.Int, k *big.Int) *Term {
	var atoms []*Term
	for t, c := range m {
		if c.Sign() != 0 {
			atoms = append(atoms, t)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var args []*Term
	for _, t := range atoms {
		if c := m[t]; c.Cmp(one) == 0 {
			args = append(args, t)
		} else {
			args = append(args, b.mk("*", SInt, "", nil, b.IntBig(c), t))
		}
	}
	if k.Sign() != 0 || len(args) == 0 {
		args = append(args, b.IntBig(k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return b.mk("+", SInt, "", nil, args...)
}
func (b *TB) IAdd(as ...*Term) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	for _, a := range as {
		b.ilin(a, one, m, k)
	}
	return b.fromILin(m, k)
}
func (b *TB) ISub(a, c *Term) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	b.ilin(a, one, m, k)
	b.ilin(c, minusOne, m, k)
	return b.fromILin(m, k)
}
func (b *TB) IMul(a, c *Term) *Term {
	if c.IsConst() {
		a, c = c, a
	}
	if a.IsConst() {
		m := map[*Term]*big.Int{}
		k := new(big.Int)
		b.ilin(c, a.val, m, k)
		return b.fromILin(m, k)
	}
	// distribute over sums so that polynomial identities become linear
	if a.op == "+" {
		var as []*Term
		for _, x := range a.args {
			as = append(as, b.IMul(x, c))
		}
		return b.IAdd(as...)
	}
	if c.op == "+" {
		var as []*Term
		for _, x := range c.args {
			as = append(as, b.IMul(a, x))
		}
		return b.IAdd(as...)
	}
	if a.op == "*" && a.args[0].IsConst() {
		return b.IMul(a.args[0], b.IMul(a.args[1], c))
	}
	if c.op == "*" && c.args[0].IsConst() {
		return b.IMul(c.args[0], b.IMul(a, c.args[1]))
	}
	if a.id > c.id {
		a, c = c, a
	}
	return b.mk("*", SInt, "", nil, a, c)
}
func (b *TB) IDiv(a, c *Term) *Term {
	if a.IsConst() && c.IsConst() && c.val.Sign() > 0 {
		q, _ := new(big.Int).DivMod(a.val, c.val, new(big.Int))
		return b.IntBig(q)
	}
	return b.mk("div", SInt, "", nil, a, c)
}
func (b *TB) IMod(a, c *Term) *Term {
	if a.IsConst() && c.IsConst() && c.val.Sign() > 0 {
		return b.IntBig(new(big.Int).Mod(a.val, c.val))
	}
	return b.mk("mod", SInt, "", nil, a, c)
}
func (b *TB) ILe(a, c *Term) *Term {
	if a == c {
		return b.True()
	}
	if a.IsConst() && c.IsConst() {
		return b.Bool(a.val.Cmp(c.val) <= 0)
	}
	return b.mk("<=", SBool, "", nil, a, c)
}
func (b *TB) ILt(a, c *Term) *Term { return b.Not(b.ILe(c, a)) }

// Nat is the unsigned value of a BV term.
func (b *TB) Nat(a *Term) *Term {
	if a.IsConst() {
		return b.IntBig(a.val)
	}
	if a.op == "zext" {
		return b.Nat(a.args[0])
	}
	return b.mk("bv2nat", SInt, "", nil, a)
}

// Subst replaces variables/terms.
func (b *TB) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = b.Subst(a, m, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = b.rebuild(t, args)
	}
	memo[t] = r
	return r
}

func (b *TB) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return b.Not(args[0])
	case "and":
		return b.And(args...)
	case "or":
		return b.Or(args...)
	case "=":
		return b.Eq(args[0], args[1])
	case "ite":
		return b.Ite(args[0], args[1], args[2])
	case "bvadd":
		return b.Add(args...)
	case "bvmul":
		return b.Mul(args[0], args[1])
	case "bvult":
		return b.Ult(args[0], args[1])
	case "bvslt":
		return b.Slt(args[0], args[1])
	case "bvnot":
		return b.BVNot(args[0])
	case "zext":
		return b.Zext(t.sort.W, args[0])
	case "sext":
		return b.Sext(t.sort.W, args[0])
	case "extract":
		var hi, lo int
		fmt.Sscanf(t.name, "%d %d", &hi, &lo)
		return b.Extract(hi, lo, args[0])
	case "concat":
		return b.Concat(args[0], args[1])
	case "+":
		return b.IAdd(args...)
	case "*":
		return b.IMul(args[0], args[1])
	case "<=":
		return b.ILe(args[0], args[1])
	case "bv2nat":
		return b.Nat(args[0])
	case "app":
		return b.App(t.name, t.sort, args...)
	case "forall":
		return b.mk(t.op, t.sort, t.name, t.val, args...)
	}
	if strings.HasPrefix(t.op, "bv") {
		return b.BVBin(t.op, args[0], args[1])
	}
	return b.mk(t.op, t.sort, t.name, t.val, args...)
}

// Forall over one variable v with body (pattern-free).
func (b *TB) Forall(v, body *Term) *Term {
	if body.IsConst() {
		return body
	}
	return b.mk("forall", SBool, "", nil, v, body)
}

// walk visits the DAG once, children first.
func walk(seen map[*Term]bool, f func(*Term), ts ...*Term) {
	for _, t := range ts {
		if seen[t] {
			continue
		}
		seen[t] = true
		walk(seen, f, t.args...)
		f(t)
	}
}

// ---- SMT-LIB printing ----

func smtName(n string) string {
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_!.$@-", r)) {
			return "|" + strings.ReplaceAll(n, "|", "_") + "|"
		}
	}
	return n
}

type printer struct {
	out   *strings.Builder
	names map[*Term]string
	decl  map[string]bool
	sorts map[string]bool
	uses  map[*Term]int
	bound map[*Term]bool
	dep   map[*Term]bool // depends on a bound var
	n     int
}

func constStr(t *Term) string {
	switch t.sort.K {
	case KBool:
		if t.val.Sign() != 0 {
			return "true"
		}
		return "false"
	case KBV:
		if t.sort.W%4 == 0 {
			return "#x" + fmt.Sprintf("%0*s", t.sort.W/4, t.val.Text(16))
		}
		return fmt.Sprintf("(_ bv%s %d)", t.val.String(), t.sort.W)
	}
	if t.val.Sign() < 0 {
		return "(- " + new(big.Int).Neg(t.val).String() + ")"
	}
	return t.val.String()
}

func (p *printer) declare(t *Term) {
	ds := func(s Sort) {
		if s.K == KU && !p.sorts[s.Name] {
			p.sorts[s.Name] = true
			fmt.Fprintf(p.out, "(declare-sort %s 0)\n", s.Name)
		}
	}
	switch t.op {
	case "var":
		if p.decl[t.name] || p.bound[t] {
			return
		}
		ds(t.sort)
		p.decl[t.name] = true
		fmt.Fprintf(p.out, "(declare-const %s %s)\n", smtName(t.name), t.sort)
	case "app":
		if p.decl[t.name] {
			return
		}
		p.decl[t.name] = true
		ds(t.sort)
		var as []string
		for _, a := range t.args {
			ds(a.sort)
			as = append(as, a.sort.String())
		}
		fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(as, " "), t.sort)
	}
}

func (p *printer) ref(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	switch t.op {
	case "const":
		return constStr(t)
	case "var":
		return smtName(t.name)
	}
	return p.expr(t)
}

func (p *printer) expr(t *Term) string {
	var sb strings.Builder
	switch t.op {
	case "app":
		sb.WriteString("(" + smtName(t.name))
	case "zext":
		sb.WriteString("((_ zero_extend " + t.name + ")")
	case "sext":
		sb.WriteString("((_ sign_extend " + t.name + ")")
	case "extract":
		sb.WriteString("((_ extract " + t.name + ")")
	case "forall":
		return fmt.Sprintf("(forall ((%s %s)) %s)", smtName(t.args[0].name), t.args[0].sort, p.ref(t.args[1]))
	default:
		sb.WriteString("(" + t.op)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(p.ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// smtScript prints declarations, definitions and assertions.
func smtScript(asserts []*Term) string {
	var out strings.Builder
	p := &printer{out: &out, names: map[*Term]string{}, decl: map[string]bool{}, sorts: map[string]bool{}, uses: map[*Term]int{}, bound: map[*Term]bool{}, dep: map[*Term]bool{}}
	walk(map[*Term]bool{}, func(t *Term) {
		if t.op == "forall" {
			p.bound[t.args[0]] = true
		}
	}, asserts...)
	var order []*Term
	walk(map[*Term]bool{}, func(t *Term) {
		order = append(order, t)
		for _, a := range t.args {
			p.uses[a]++
			if p.dep[a] || p.bound[a] {
				p.dep[t] = true
			}
		}
		if t.op == "forall" {
			p.dep[t] = false
		}
		if p.bound[t] {
			p.dep[t] = true
		}
	}, asserts...)
	for _, t := range order {
		p.declare(t)
		if len(t.args) > 0 && !p.dep[t] && (p.uses[t] > 1 || true) {
			// name every compound node: keeps printing linear
			if p.uses[t] <= 1 && len(t.args) <= 2 && t.op != "ite" {
				continue
			}
			e := p.expr(t)
			p.n++
			n := fmt.Sprintf("t%d", p.n)
			fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, t.sort, e)
			p.names[t] = n
		}
	}
	for _, a := range asserts {
		fmt.Fprintf(p.out, "(assert %s)\n", p.ref(a))
	}
	return out.String()
}
