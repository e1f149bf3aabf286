package main

// Contracts of package xproto.

func tagPre(i int) func(c *Ctx) []*Term {
	return func(c *Ctx) []*Term {
		t := c.T(i)
		return []*Term{c.x.tb.Ult(c.x.tb.BV(8, 0), t), c.x.tb.Ult(t, c.x.tb.BV(8, 16))}
	}
}

const (
	exIdent       = 1
	exLiteral     = 2
	exVariable    = 3
	exFuncCall    = 4
	exOperator    = 5
	exPlaceholder = 6
)

// exprs is the encoding of the operands of an expression.
func (x *X) exprs(tag int) (string, func(x *X, v Value) Enc) {
	return "exprs_" + itoa(tag), func(x *X, v Value) Enc { return x.enc(exprK, tag, v.(IfaceVal)) }
}

func (x *X) anys(tag int) (string, func(x *X, v Value) Enc) {
	return "anys_" + itoa(tag), func(x *X, v Value) Enc { return x.enc(anyK, tag, v.(IfaceVal)) }
}

func (x *X) opRope(tag any, name Value, operands []Piece) []Piece {
	return x.fld(tag, x.vfld(1, exOperator), x.fld(6, x.fld(1, x.content(name)), operands))
}

func (x *X) callRope(tag any, name Value, operands []Piece) []Piece {
	return x.fld(tag, x.vfld(1, exFuncCall), x.fld(5, x.fld(1, x.fld(1, x.content(name))), operands))
}

func regXproto(e *Engine) {
	tag1 := tagPre(1)
	// user supplied encoders
	user := func(name string) func(c *Ctx) []Case {
		return func(c *Ctx) []Case {
			v := c.args[0].(IfaceVal)
			return c.x.encAppCases(c.S(1), c.x.ufEnc(name, v.term, c.T(2)))
		}
	}
	e.add(&Contract{Key: "iface:xproto.AppendAny.AppendAny", Trusted: true, Spec: user("userany"),
		Why: "a custom argument encoder appends exactly one field with the given tag and returns a nil error, or returns a non-nil error with any buffer"})
	e.add(&Contract{Key: "iface:xproto.AppendExpr.AppendExpr", Trusted: true, Spec: user("userexpr"),
		Why: "a custom expression encoder appends exactly one field with the given tag and returns a nil error, or returns a non-nil error with any buffer"})
	e.add(&Contract{Key: "func:func([]byte, uint8) ([]byte, error)", Trusted: true,
		Why: "an expression function appends exactly one field with the given tag and returns a nil error, or returns a non-nil error with any buffer",
		Spec: func(c *Ctx) []Case {
			return c.x.encAppCases(c.S(1), c.x.fnEnc(c.args[0].(FuncVal), c.T(2)))
		}})

	e.add(&Contract{Key: "xproto.appendAny", Props: []string{"C01", "C07"}, Pre: tag1, Unfold: true, Spec: encSpec(anyK),
		DerefOK: func(x *X, v *Term) *Term {
			return x.tb.And(x.tb.Eq(x.rkind(v), x.c64(kindPtr)), x.tb.Not(x.rnil(v)), x.tb.Not(x.implements(v, x.eng.namedType(modPrefix+"/xproto", "AppendAny"))))
		}})
	e.add(&Contract{Key: "xproto.appendExpr", Props: []string{"C02", "C05", "C08", "C09"}, Pre: tag1, Unfold: true, Spec: encSpec(exprK),
		Assume: func(c *Ctx) []*Term {
			// a nil expression function inside an interface is outside the claim
			x := c.x
			v := c.args[2].(IfaceVal)
			t := x.eng.typeNamed("xproto.AppendExprFunc")
			return []*Term{x.tb.Implies(x.tb.Eq(x.dyn(v.term), x.tid(t)), x.tb.Not(x.isNil(x.payload(v.term, t))))}
		}})

	// typed payloads
	str := func(k encKind) func(c *Ctx) []Case {
		return func(c *Ctx) []Case {
			x := c.x
			return []Case{{Res: []RSpec{RApp{c.S(0), x.wrap(byte(k), c.T(1), x.scString(x.content(c.args[2]), c.T(3)))}}}}
		}
	}
	bytesF := func(k encKind) func(c *Ctx) []Case {
		return func(c *Ctx) []Case {
			x := c.x
			if s, ok := c.args[2].(SliceVal); ok {
				if x.branch(s.isnil) {
					return []Case{{Name: "nil", Res: []RSpec{RApp{c.S(0), x.wrap(byte(k), c.T(1), x.scNull())}}}}
				}
			}
			return []Case{{Res: []RSpec{RApp{c.S(0), x.wrap(byte(k), c.T(1), x.scOctets(x.content(c.args[2]), c.T(3)))}}}}
		}
	}
	e.add(&Contract{Key: "xproto.AppendAnyString", Props: []string{"C01", "C03"}, Pre: tag1, Spec: str(anyK)})
	e.add(&Contract{Key: "xproto.AppendExprString", Props: []string{"C02", "C03"}, Pre: tag1, Spec: str(exprK)})
	e.add(&Contract{Key: "xproto.AppendAnyBytes", Props: []string{"C01", "C03"}, Pre: tag1, Spec: bytesF(anyK)})
	e.add(&Contract{Key: "xproto.AppendAnyBytesString", Props: []string{"C03"}, Pre: tag1, Spec: bytesF(anyK)})
	e.add(&Contract{Key: "xproto.AppendExprBytes", Props: []string{"C02", "C03"}, Pre: tag1, Spec: bytesF(exprK)})
	e.add(&Contract{Key: "xproto.AppendExprBytesString", Props: []string{"C03"}, Pre: tag1, Spec: bytesF(exprK)})

	// expressions
	opSpec := func(rope func(x *X, tag any, name Value, r []Piece) []Piece) func(c *Ctx) []Case {
		return func(c *Ctx) []Case {
			x := c.x
			nm, f := x.exprs(2)
			en := x.catOver(nm, c.S(3), f)
			return x.encAppCases(c.S(0), Enc{rope(x, c.T(1), c.args[2], en.r), en.ok})
		}
	}
	opCands := func(c *Ctx) []*Cat {
		nm, f := c.x.exprs(2)
		return c.x.catsOf(nm, c.S(3), f)
	}
	for _, k := range []string{"xproto.AppendExprOperator", "xproto.AppendExprOperatorV"} {
		e.add(&Contract{Key: k, Props: []string{"C05", "C06"}, Pre: tag1, Spec: opSpec((*X).opRope), Cands: opCands})
	}
	for _, k := range []string{"xproto.AppendExprFunctionCall", "xproto.AppendExprFunctionCallV"} {
		e.add(&Contract{Key: k, Props: []string{"C05", "C06"}, Pre: tag1, Spec: opSpec((*X).callRope), Cands: opCands})
	}
	one := func(rope func(x *X, tag *Term, v Value) []Piece) func(c *Ctx) []Case {
		return func(c *Ctx) []Case {
			return []Case{{Res: []RSpec{RApp{c.S(0), rope(c.x, c.T(1), c.args[2])}, RNoErr{}}}}
		}
	}
	e.add(&Contract{Key: "xproto.AppendExprColumn", Props: []string{"C05", "C06"}, Pre: tag1, Spec: one(func(x *X, tag *Term, v Value) []Piece {
		return x.fld(tag, x.vfld(1, exIdent), x.fld(2, x.fld(2, x.content(v))))
	})})
	e.add(&Contract{Key: "xproto.AppendExprPlaceholder", Props: []string{"C05"}, Pre: tag1, Spec: one(func(x *X, tag *Term, v Value) []Piece {
		return x.fld(tag, x.vfld(1, exPlaceholder), x.vfld(7, v.(*Term)))
	})})
	e.add(&Contract{Key: "xproto.AppendExprVariable", Props: []string{"C05", "C15"}, Pre: tag1, Spec: one(varRope),
		AtCall: func(x *X, args []Value) { x.ghostData["variable"] = args[2] }})
}

func varRope(x *X, tag *Term, v Value) []Piece {
	return x.fld(tag, x.vfld(1, exVariable), x.fld(3, x.content(v)))
}
