package main

// Contracts of the functions that append whole protocol messages (package xproto).

import "go/types"

const (
	msgCapSet     = 2
	msgAuthStart  = 4
	msgAuthCont   = 5
	msgReset      = 6
	msgStmt       = 12
	msgInsert     = 18
	msgUpdate     = 19
	msgDelete     = 20
	msgExpOpen    = 24
	msgExpClose   = 25
	msgPrepare    = 40
	msgExecute    = 41
	msgDeallocate = 42
)

func (x *X) stmtFrame(stmt []Piece, args []Piece) []Piece {
	return x.frame(msgStmt, x.fld(1, stmt), args)
}

// colEnc is one projection column of an insert.
func colEnc(x *X, v Value) Enc { return Enc{r: x.fld(3, x.fld(1, x.content(v)))} }

// rowEnc is one row of an insert.
func (x *X) rowEnc(row SliceVal) Enc {
	nm, f := x.exprs(1)
	en := x.catOver(nm, row, f)
	return Enc{x.fld(4, en.r), en.ok}
}

func (x *X) insertBody(name Value, cols []Piece) []Piece {
	return cat(x.fld(1, x.fld(1, x.content(name))), x.vfld(2, 2), cols)
}

func (x *X) cols(s SliceVal) []Piece { return x.catOver("cols", s, colEnc).r }

func (x *X) updateBody(name Value) []Piece {
	return cat(x.fld(2, x.fld(1, x.content(name))), x.vfld(3, 2))
}

// setEnc is one assignment of an update.
func (x *X) setEnc(name Value, v IfaceVal) Enc {
	e := x.enc(exprK, 3, v)
	return Enc{x.fld(7, x.fld(1, x.fld(2, x.content(name))), x.vfld(2, 1), e.r), e.ok}
}

// criteria is the optional filter of an update or delete.
func (x *X) criteria(f FuncVal, tag int) Enc {
	if f.isNilConst() {
		return Enc{}
	}
	if x.branch(x.isNil(f)) {
		return Enc{}
	}
	if f.term == nil {
		x.unsupported("encoding of a concrete criteria function")
	}
	return x.fnEnc(f, tag)
}

// unsetLen are the four length bytes that the caller fills in later.
func (x *X) unsetLen() []Piece { return x.anyBytes(x.c64(4)) }

func appSpec(f func(c *Ctx) []Piece) func(c *Ctx) []Case {
	return func(c *Ctx) []Case { return []Case{{Res: []RSpec{RApp{c.S(0), f(c)}}}} }
}

func regMsg(e *Engine) {
	anyCands := func(i, tag int) func(c *Ctx) []*Cat {
		return func(c *Ctx) []*Cat {
			nm, f := c.x.anys(tag)
			return c.x.catsOf(nm, c.S(i), f)
		}
	}
	e.add(&Contract{Key: "xproto.StmtExecute", Props: []string{"C07"}, Also: []string{"C11", "C15"}, Cands: anyCands(2, 2), Spec: func(c *Ctx) []Case {
		x := c.x
		nm, f := x.anys(2)
		en := x.catOver(nm, c.S(2), f)
		return x.encAppCases(c.S(0), Enc{x.stmtFrame(x.content(c.args[1]), en.r), en.ok})
	}})
	e.add(&Contract{Key: "xproto.Prepare", Props: []string{"C07"}, Spec: appSpec(func(c *Ctx) []Piece {
		x := c.x
		return x.frame(msgPrepare, x.vfld(1, x.tb.Conv(c.T(1), 64, false)), x.fld(2, x.vfld(1, 5), x.fld(6, x.fld(1, x.content(c.args[2])))))
	})})
	e.add(&Contract{Key: "xproto.Execute", Props: []string{"C07"}, Cands: anyCands(2, 2), Spec: func(c *Ctx) []Case {
		x := c.x
		nm, f := x.anys(2)
		en := x.catOver(nm, c.S(2), f)
		return x.encAppCases(c.S(0), Enc{x.frame(msgExecute, x.vfld(1, x.tb.Conv(c.T(1), 64, false)), en.r), en.ok})
	}})
	e.add(&Contract{Key: "xproto.Deallocate", Props: []string{"C07"}, Spec: appSpec(func(c *Ctx) []Piece {
		x := c.x
		return x.frame(msgDeallocate, x.vfld(1, x.tb.Conv(c.T(1), 64, false)))
	})})
	// inserts
	e.add(&Contract{Key: "xproto.Insert", Props: []string{"C08"}, Also: []string{"C15"},
		Cands: func(c *Ctx) []*Cat { return c.x.catsOf("cols", c.S(2), colEnc) },
		Spec: appSpec(func(c *Ctx) []Piece {
			x := c.x
			return cat(x.unsetLen(), x.by(msgInsert), x.insertBody(c.args[1], x.cols(c.S(2))))
		})})
	e.add(&Contract{Key: "xproto.AppendInsertRow", Props: []string{"C08"}, Also: []string{"C15"},
		Cands: func(c *Ctx) []*Cat {
			nm, f := c.x.exprs(1)
			return c.x.catsOf(nm, c.S(1), f)
		},
		Spec: func(c *Ctx) []Case { return c.x.encAppCases(c.S(0), c.x.rowEnc(c.S(1))) }})
	// updates and deletes
	e.add(&Contract{Key: "xproto.Update", Props: []string{"C09"}, Spec: func(c *Ctx) []Case {
		x := c.x
		cr := x.criteria(c.args[2].(FuncVal), 4)
		return x.encAppCases(c.S(0), Enc{cat(x.unsetLen(), x.by(msgUpdate), x.updateBody(c.args[1]), cr.r), x.okOf(cr)})
	}})
	e.add(&Contract{Key: "xproto.AppendUpdateSet", Props: []string{"C09"}, Spec: func(c *Ctx) []Case {
		return c.x.encAppCases(c.S(0), c.x.setEnc(c.args[1], c.args[2].(IfaceVal)))
	}})
	e.add(&Contract{Key: "xproto.Delete", Props: []string{"C09"}, Spec: func(c *Ctx) []Case {
		x := c.x
		cr := x.criteria(c.args[2].(FuncVal), 3)
		return x.encAppCases(c.S(0), Enc{x.frame(msgDelete, x.fld(1, x.fld(1, x.content(c.args[1]))), cr.r), x.okOf(cr)})
	}})
	// expectations
	e.add(&Contract{Key: "func:func([]byte) []byte", Trusted: true,
		Why: "an expectation condition only appends bytes to the buffer it is given",
		Spec: func(c *Ctx) []Case {
			return []Case{{Res: []RSpec{RApp{c.S(1), c.x.ufEnc("cond", c.args[0].(FuncVal).term).r}}}}
		}})
	cond := func(x *X, v Value) Enc {
		f := v.(FuncVal)
		if f.term == nil {
			x.unsupported("encoding of a concrete condition")
		}
		return Enc{r: x.ufEnc("cond", f.term).r}
	}
	e.add(&Contract{Key: "xproto.ExpectOpen", Props: []string{"C12"},
		Pre: func(c *Ctx) []*Term {
			ps := []*Term{c.x.tb.Ult(c.T(1), c.x.tb.BV(8, 128))}
			return ps
		},
		NonNilFuncs: true,
		Cands:       func(c *Ctx) []*Cat { return c.x.catsOf("conds", c.S(2), cond) },
		Spec: appSpec(func(c *Ctx) []Piece {
			x := c.x
			return x.frame(msgExpOpen, x.vfld(1, x.tb.Conv(c.T(1), 64, false)), x.catOver("conds", c.S(2), cond).r)
		})})
	e.add(&Contract{Key: "xproto.ExpectClose", Props: []string{"C12"}, Spec: appSpec(func(c *Ctx) []Piece { return c.x.frame(msgExpClose) })})
	condFn := func(x *X, rope func() []Piece) RFn {
		return RFn{Check: func(x *X, f FuncVal) {
			p := x.freshBuf("p")
			r, ok := x.runFn(f, []Value{p})
			if ok {
				x.checkR(RApp{p, rope()}, r, "what the condition appends")
			}
		}}
	}
	e.add(&Contract{Key: "xproto.OpenConditionExpectNoError", Props: []string{"C12"}, Only: true, Spec: func(c *Ctx) []Case {
		x := c.x
		return []Case{{Res: []RSpec{condFn(x, func() []Piece {
			return x.fld(2, x.vfld(1, 1), x.fld(2, x.by(x.tb.Ite(c.T(0), x.tb.BV(8, '1'), x.tb.BV(8, '0')))))
		})}}}
	}})
	e.add(&Contract{Key: "xproto.OpenConditionExpectFieldExists", Props: []string{"C12"}, Only: true,
		Pre: func(c *Ctx) []*Term {
			return []*Term{c.x.tb.Ult(c.Str(0).n, c.x.tb.BVBig(64, new2(31)))}
		},
		Spec: func(c *Ctx) []Case {
			x := c.x
			return []Case{{Res: []RSpec{condFn(x, func() []Piece {
				return x.fld(2, x.vfld(1, 2), x.fld(2, x.content(c.args[0])))
			})}}}
		}})
	// session
	e.add(&Contract{Key: "xproto.Reset", Props: []string{"C24"}, Spec: func(c *Ctx) []Case {
		x := c.x
		return []Case{
			{Name: "keep open", G: c.T(1), Res: []RSpec{RApp{c.S(0), x.frame(msgReset, x.vfld(1, 1))}}},
			{Name: "close", Res: []RSpec{RApp{c.S(0), x.frame(msgReset)}}},
		}
	}})
}

// freshBuf is an arbitrary buffer handed to a function value after the verified function has returned.
func (x *X) freshBuf(name string) SliceVal {
	p := x.symVal(types.NewSlice(types.Typ[types.Uint8]), name).(SliceVal)
	if p.obj != nil {
		x.entry.bytes[p.obj.id] = x.st.bytes[p.obj.id]
		x.spareGuard(p)
	}
	return p
}

// runFn calls a function value and catches panics of the target.
func (x *X) runFn(f FuncVal, args []Value) (r Value, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(targetPanic); is {
				x.oblige("the returned function does not panic", x.tb.False())
				r, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	return x.callFunc(f, args, nil), true
}
