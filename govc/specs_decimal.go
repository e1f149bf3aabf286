package main

// Contracts of types.Decimal. The domain is finite in shape (at most 77 digits), so the number of digits
// is a case split; digits, sign and scale stay symbolic.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const maxDigits = 77

func init() {
	if new(big.Int).Exp(big.NewInt(10), big.NewInt(maxDigits), nil).BitLen() > 256 {
		panic("the coefficient does not fit")
	}
}

// u256 is the number held in the words (least significant first).
func (x *X) u256(ws []Value) *Term {
	k := ""
	for _, w := range ws {
		k += fmt.Sprint(w.(*Term).id, ",")
	}
	memo, _ := x.ghostData["u256"].(map[string]*Term)
	if n := memo[k]; n != nil {
		return n
	}
	n := ws[0].(*Term)
	for _, w := range ws[1:] {
		n = x.tb.Concat(w.(*Term), n)
	}
	return n
}

func (x *X) words256(n *Term) []Value {
	var ws []Value
	k := ""
	for i := 0; i < 4; i++ {
		w := x.tb.Extract(64*i+63, 64*i, n)
		ws = append(ws, w)
		k += fmt.Sprint(w.id, ",")
	}
	memo, _ := x.ghostData["u256"].(map[string]*Term)
	if memo == nil {
		memo = map[string]*Term{}
		x.ghostData["u256"] = memo
	}
	memo[k] = n
	return ws
}

func (x *X) be256(n *Term) []*Term {
	var bs []*Term
	for i := 31; i >= 0; i-- {
		bs = append(bs, x.tb.Extract(8*i+7, 8*i, n))
	}
	return bs
}

// minBE is the minimal big-endian form of n, of at least one byte.
func (x *X) minBE(n *Term) []Piece {
	bs := x.be256(n)
	var i *Term
	if x.eng.abstracts("(*types.Uint256).AppendBytes") {
		i = x.tb.App("minidx", SBV(64), n) // defined by the contract of AppendBytes, checked there
	} else {
		i = x.c64(31)
		for j := 30; j >= 0; j-- {
			i = x.tb.Ite(x.tb.Eq(bs[j], x.tb.BV(8, 0)), i, x.c64(int64(j)))
		}
	}
	return []Piece{{seq: x.view(&BytesSeq{bs}, i), n: x.tb.Sub(x.c64(32), i), lab: "coefficient"}}
}

func arr4(x *X, p PtrVal) []Value {
	a, ok := x.load(p, "Uint256").(ArrVal)
	if !ok || len(a.elems) != 4 {
		x.unsupported("Uint256")
	}
	return a.elems
}

// decimal describes the packed decimal d of the current path.
type decimal struct {
	scale, sign *Term
	digits      []*Term // 8-bit values 0..9
}

func (x *X) decimalArg() decimal { return x.ghostData["decimal"].(decimal) }

func decimalArgs(x *X, fn *ssa.Function) []Value {
	tb := x.tb
	k := x.con.Shards
	m := x.shard + 1 + k*x.choose((maxDigits-x.shard+k-1)/k)
	n := 1 + (m+2)/2
	var bs []*Term
	for i := 0; i < n; i++ {
		bs = append(bs, tb.Fresh("d", SBV(8)))
	}
	nib := func(i int) *Term {
		b := bs[1+i/2]
		if i%2 == 0 {
			return tb.BVBin("bvlshr", b, tb.BV(8, 4))
		}
		return tb.BVBin("bvand", b, tb.BV(8, 15))
	}
	d := decimal{scale: bs[0], sign: nib(m)}
	for i := 0; i < m; i++ {
		d.digits = append(d.digits, nib(i))
		x.assume(tb.Ule(nib(i), tb.BV(8, 9)))
	}
	x.assume(tb.Ult(tb.BV(8, 9), d.sign))
	x.assume(tb.Ule(d.scale, tb.BV(8, uint64(m))))
	x.ghostData["decimal"] = d
	x.vals = append(x.vals, bs...)
	o := x.newObj('b', types.NewSlice(types.Typ[types.Uint8]), "d")
	o.fresh = false
	x.st.bytes[o.id] = &BytesSeq{bs}
	args := []Value{SliceVal{obj: o, off: x.c64(0), n: x.c64(int64(n)), cap: x.c64(int64(n)), isnil: tb.False(), elem: types.Typ[types.Uint8]}}
	for _, p := range fn.Params[1:] {
		args = append(args, x.symVal(p.Type(), p.Name()))
	}
	return args
}

func (x *X) decNeg(d decimal) *Term {
	return x.tb.Or(x.tb.Eq(d.sign, x.tb.BV(8, 0xB)), x.tb.Eq(d.sign, x.tb.BV(8, 0xD)))
}

func regDecimal(e *Engine) {
	extraAxiom["minidx"] = func(x *X, t *Term) []*Term { return []*Term{x.tb.Ule(t, x.c64(31))} }
	e.add(&Contract{Key: "(*types.Uint256).MulAdd", Helper: true, Why: "multiplication by powers of ten only; the returned overflow word is not specified",
		Args: func(x *X, fn *ssa.Function) []Value {
			args := []Value{x.symVal(fn.Params[0].Type(), "x")}
			y := int64(10)
			for i := x.choose(4); i > 0; i-- {
				y *= 10
			}
			return append(args, x.c64(y), x.symVal(fn.Params[2].Type(), "z"))
		},
		Spec: func(c *Ctx) []Case {
			x, tb := c.x, c.x.tb
			p := c.args[0].(PtrVal)
			y, z := c.T(1), c.T(2)
			if !y.IsConst() {
				x.unsupported("MulAdd with a factor that is not a constant")
			}
			switch y.U64() {
			case 10, 100, 1000, 10000:
			default:
				x.unsupported("MulAdd with factor %d", y.U64())
			}
			n := tb.Add(tb.Mul(tb.Zext(256, y), x.u256(arr4(x, p))), tb.zextSum(256, z))
			return []Case{{Res: []RSpec{RAny{}}, Mem: []MSpec{{p, RSym{func(x *X, v Value) []*Term { return nil }}}},
				Eff: func(x *X) { x.store(p, ArrVal{x.words256(n)}, "MulAdd") },
				Post: func(x *X, res []Value) {
					got := arr4(x, p)
					g := got[0].(*Term)
					for _, w := range got[1:] {
						g = tb.Concat(w.(*Term), g)
					}
					x.oblige("x = x*y + z mod 2^256", tb.Eq(tb.Nat(g), tb.Nat(n)))
				}}}
		}})
	e.add(&Contract{Key: "(*types.Uint256).AppendBytes", Helper: true, Spec: func(c *Ctx) []Case {
		x := c.x
		n := x.u256(arr4(x, c.args[0].(PtrVal)))
		if c.call {
			return []Case{{Res: []RSpec{RApp{c.S(1), x.minBE(n)}}}}
		}
		var cs []Case
		bs := x.be256(n)
		for i := 0; i < 32; i++ {
			var g *Term
			if i < 31 {
				g = x.tb.Ne(bs[i], x.tb.BV(8, 0))
			}
			cs = append(cs, Case{Name: fmt.Sprintf("%d bytes", 32-i), G: g, Res: []RSpec{RApp{c.S(1), []Piece{{seq: &BytesSeq{bs[i:]}, n: x.c64(int64(32 - i)), lab: "bytes"}}}}})
		}
		return cs
	}})
	e.add(&Contract{Key: "(types.Decimal).String", Props: []string{"C21"}, Shards: 8, Args: decimalArgs, Spec: func(c *Ctx) []Case {
		x, tb := c.x, c.x.tb
		d := x.decimalArg()
		var bs []*Term
		for _, t := range d.digits {
			bs = append(bs, (&ConstSeq{"0123456789"}).At(x, tb.Zext(64, t)))
		}
		s := tb.Zext(64, d.scale)
		m := x.c64(int64(len(bs)))
		i := tb.Sub(m, s)
		r := cat(x.opt(x.decNeg(d), x.lit("-")), []Piece{{seq: &BytesSeq{bs}, n: i, lab: "digits before the point"}})
		if !x.branch(tb.Eq(s, x.c64(0))) {
			r = cat(r, x.lit("."), []Piece{{seq: x.view(&BytesSeq{bs}, i), n: s, lab: "digits after the point"}})
		}
		return []Case{{Name: fmt.Sprintf("%d digits", len(bs)), Res: []RSpec{RStr{r}}}}
	}})
	e.add(&Contract{Key: "(types.Decimal).Decompose", Props: []string{"C21"}, Shards: 8, Args: decimalArgs,
		Writes: func(c *Ctx) []Region { return []Region{{S: c.S(1), From: c.x.c64(0)}} },
		Spec: func(c *Ctx) []Case {
			x, tb := c.x, c.x.tb
			d := x.decimalArg()
			n := tb.BV(256, 0)
			for _, t := range d.digits {
				n = tb.Add(tb.Mul(tb.BV(256, 10), n), tb.Zext(256, t))
			}
			buf := c.S(1)
			buf.n = x.c64(0)
			return []Case{{Name: fmt.Sprintf("%d digits", len(d.digits)), Res: []RSpec{
				RVal{tb.BV(8, 0)}, RVal{x.decNeg(d)}, RApp{buf, x.minBE(n)}, RVal{tb.Neg(tb.Zext(32, d.scale))}}}}
		}})
}

// abstracts reports whether calls of the function go through its contract.
func (e *Engine) abstracts(key string) bool {
	if e.findFn(key) == nil {
		return false
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	return !e.broken[key]
}
