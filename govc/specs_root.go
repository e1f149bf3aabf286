package main

// Contracts of the root package: typed wrappers, expression constructors, the builder.

import (
	"go/types"
	"math/big"
)

func regRoot(e *Engine) {
	regWrappers(e)
	regConstructors(e)
	regBuilder(e)
}

func regWrappers(e *Engine) {
	pre := tagPre(2)
	for _, k := range []encKind{anyK, exprK} {
		k := k
		m := "AppendAny"
		if k == exprK {
			m = "AppendExpr"
		}
		e.add(&Contract{Key: "(xtorm.String)." + m, Props: []string{"C03"}, Pre: pre, Only: true, Spec: func(c *Ctx) []Case {
			x := c.x
			s := c.args[0].(StructVal)
			var val StrVal
			var coll *Term
			for _, f := range s.fields {
				switch v := f.(type) {
				case StrVal:
					val = v
				case *Term:
					coll = v
				}
			}
			return []Case{{Res: []RSpec{RApp{c.S(1), x.wrap(byte(k), c.T(2), x.scString(x.content(val), coll))}, RNoErr{}}}}
		}})
		for n, ct := range map[string]uint64{"geometry": 1, "json": 2, "jsonString": 2, "xml": 3, "xmlString": 3} {
			ct := ct
			e.add(&Contract{Key: "(xtorm." + n + ")." + m, Props: []string{"C03"}, Pre: pre, Only: true,
				Begin: func(c *Ctx) {},
				Writes: func(c *Ctx) []Region {
					return []Region{{S: c.S(1), From: c.S(1).n}}
				},
				Spec: func(c *Ctx) []Case {
					x := c.x
					if s, ok := c.args[0].(SliceVal); ok {
						if x.branch(s.isnil) {
							return []Case{{Name: "nil", Res: []RSpec{RApp{c.S(1), x.wrap(byte(k), c.T(2), x.scNull())}, RNoErr{}}}}
						}
					}
					return []Case{{Res: []RSpec{RApp{c.S(1), x.wrap(byte(k), c.T(2), x.scOctets(x.content(c.args[0]), x.tb.BV(64, ct)))}, RNoErr{}}}}
				}})
		}
	}
	// the exported ways to make the wrappers keep the payload
	for _, n := range []string{"XML", "XMLString", "JSON", "JSONString", "Geometry"} {
		e.add(&Contract{Key: "xtorm." + n, Props: []string{"C03"}, Only: true, Spec: func(c *Ctx) []Case {
			return []Case{{Res: []RSpec{RVal{c.args[0]}}}}
		}})
	}
}

// exprFn is the specification of a returned expression: it appends the encoding of the operator or call.
func exprFn(rope func(x *X, tag any) Enc, before func(x *X)) RFn {
	return RFn{Check: func(x *X, f FuncVal) {
		if before != nil {
			before(x)
		}
		p := x.freshBuf("p")
		tag := x.tb.Fresh("tag", SBV(8))
		x.assume(x.tb.And(x.tb.Ult(x.tb.BV(8, 0), tag), x.tb.Ult(tag, x.tb.BV(8, 16))))
		r, ok := x.runFn(f, []Value{p, tag})
		if !ok {
			return
		}
		res := r.(TupleVal)
		en := rope(x, tag)
		if x.branch(x.okOf(en)) {
			x.checkR(RNoErr{}, res[1], "error of the expression")
			x.checkR(RApp{p, en.r}, res[0], "what the expression appends")
		} else {
			x.checkR(RErr{}, res[1], "error of the expression with an operand that cannot be encoded")
		}
	}}
}

var operators = map[string]string{
	"Default": "default", "Not": "!", "Plus": "sign_plus", "Minus": "sign_minus",
	"And": "&&", "Or": "||", "Xor": "xor", "Eq": "==", "Neq": "!=", "Lte": "<=", "Lt": "<", "Gt": ">", "Gte": ">=",
	"BitAnd": "&", "BitOr": "|", "BitXor": "^", "LeftShift": "<<", "RightShift": ">>",
	"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "IntDiv": "div", "Mod": "%",
	"Is": "is", "IsNot": "is_not", "Regexp": "regexp", "NotRegexp": "not_regexp", "Like": "like", "NotLike": "not_like",
	"ContIn": "cont_in", "NotContIn": "not_cont_in", "Overlaps": "overlaps", "NotOverlaps": "not_overlaps",
	"Between": "between", "NotBetween": "not_between", "In": "in", "InV": "in", "NotIn": "not_in", "NotInV": "not_in",
	"DateAdd": "date_add", "DateSub": "date_sub",
}
var functions = map[string]string{"Concat": "CONCAT", "RowCount": "ROW_COUNT", "LastInsertID": "LAST_INSERT_ID"}

func regConstructors(e *Engine) {
	mk := func(name, op string, call bool) {
		e.add(&Contract{Key: "xtorm." + name, Props: []string{"C06"}, Only: true, Spec: func(c *Ctx) []Case {
			x := c.x
			nm, f := x.exprs(2)
			all := Enc{ok: x.tb.True()}
			var lists []SliceVal
			for _, a := range c.args {
				var en Enc
				switch v := a.(type) {
				case IfaceVal:
					en = f(x, v)
				case SliceVal:
					en = x.catOver(nm, v, f)
					lists = append(lists, v)
				case StrVal: // date unit, as octets
					en = Enc{r: x.wrap(byte(exprK), 2, x.scOctets(x.content(v), x.tb.BV(64, 0)))}
				}
				all.r = append(all.r, en.r...)
				all.ok = x.tb.And(all.ok, x.okOf(en))
			}
			return []Case{{Res: []RSpec{exprFn(func(x *X, tag any) Enc {
				if call {
					return Enc{x.callRope(tag, x.str(op), all.r), all.ok}
				}
				return Enc{x.opRope(tag, x.str(op), all.r), all.ok}
			}, func(x *X) {
				if call {
					return
				}
				// the caller may have changed the list since
				for _, l := range lists {
					if l.obj != nil {
						x.st.elems[l.obj.id] = &ERope{[]ESeg{{vec: x.tb.Fresh("later", SVec), from: x.c64(0), n: l.cap}}}
					}
				}
			})}}}
		}})
	}
	for n, op := range operators {
		mk(n, op, false)
	}
	for n, op := range functions {
		mk(n, op, true)
	}
	e.add(&Contract{Key: "xtorm.Column", Props: []string{"C06"}, Only: true, Spec: func(c *Ctx) []Case {
		return []Case{{Res: []RSpec{exprFn(func(x *X, tag any) Enc {
			return Enc{r: x.fld(tag, x.vfld(1, exIdent), x.fld(2, x.fld(2, x.content(c.args[0]))))}
		}, nil)}}}
	}})
}

// ---- the builder ----

// bld gives the places of a builder's fields, found by their types.
type bld struct {
	p                  PtrVal
	buf, err, disabled PtrVal
	hasDis             bool
}

func (x *X) fieldOf(p PtrVal, i int) PtrVal {
	st := p.typ.Underlying().(*types.Struct)
	return PtrVal{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], i), typ: st.Field(i).Type()}
}

func (x *X) bld(v Value) bld {
	p, ok := v.(PtrVal)
	if !ok || p.obj == nil {
		x.unsupported("builder %T", v)
	}
	b := bld{p: p}
	n := [3]int{}
	var walk func(p PtrVal)
	walk = func(p PtrVal) {
		st := p.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := x.fieldOf(p, i)
			switch u := f.typ.Underlying().(type) {
			case *types.Struct:
				walk(f)
			case *types.Slice:
				if isByteType(u.Elem()) {
					b.buf = f
					n[0]++
				}
			case *types.Interface:
				b.err = f
				n[1]++
			case *types.Basic:
				if u.Kind() == types.Bool {
					b.disabled = f
					b.hasDis = true
					n[2]++
				}
			}
		}
	}
	walk(p)
	if n[0] != 1 || n[1] != 1 || n[2] > 1 {
		x.unsupported("the fields of %s are not the ones the contracts are about", p.typ)
	}
	return b
}

func (x *X) bufOf(b bld) SliceVal   { return x.load(b.buf, "spec").(SliceVal) }
func (x *X) errOf(b bld) IfaceVal   { return x.load(b.err, "spec").(IfaceVal) }
func (x *X) disabledOf(b bld) *Term { return x.load(b.disabled, "spec").(*Term) }

// opCases is the shape of every builder operation.
func (x *X) opCases(b bld, nres int, body func(buf SliceVal) []Case) []Case {
	none := make([]RSpec, nres)
	for i := range none {
		none[i] = RAny{}
	}
	if b.hasDis {
		if x.branch(x.disabledOf(b)) {
			return []Case{{Name: "while a callback builds", Panic: true}}
		}
	}
	if x.branch(x.tb.Not(x.isNil(x.errOf(b)))) {
		return []Case{{Name: "after a failure", Res: none}}
	}
	return body(x.bufOf(b))
}

// appendOr: the buffer gains the rope and there is no error, or there is one.
func (x *X) appendOr(b bld, buf SliceVal, e Enc) []Case {
	return []Case{
		{Name: "encodable", G: x.okOf(e), Mem: []MSpec{{b.buf, RApp{buf, e.r}}, {b.err, RNoErr{}}}},
		{Name: "not encodable", Mem: []MSpec{{b.buf, RAny{}}, {b.err, RErr{}}}},
	}
}

func (c *Ctx) b() bld { return c.x.bld(c.args[0]) }

// callback outcome: what the n-th call of a callback builds, and whether it succeeds.
type cbRes struct {
	out           []Piece
	retOK, workOK *Term
}

func (x *X) cb(f FuncVal, n int) cbRes {
	if f.term == nil {
		x.unsupported("concrete callback")
	}
	k := x.c64(int64(n))
	return cbRes{
		out:    []Piece{{seq: &SymSeq{"at_cb", []*Term{f.term, k}}, n: x.tb.App("len_cb", SBV(64), f.term, k), lab: "what the callback built"}},
		retOK:  x.tb.App("retok_cb", SBool, f.term, k),
		workOK: x.tb.App("workok_cb", SBool, f.term, k),
	}
}

func (x *X) cbCount() int {
	n, _ := x.ghostData["cb"].(int)
	return n
}

func regCallbacks(e *Engine) {
	spec := func(c *Ctx) []Case {
		x := c.x
		f := c.args[0].(FuncVal)
		n := x.cbCount()
		x.ghostData["cb"] = n + 1
		b := x.bld(c.args[1])
		r := x.cb(f, n)
		buf := x.bufOf(b)
		ret := RSpec(RNoErr{})
		if !x.branch(r.retOK) {
			ret = RErr{}
		}
		x.ghostData["cbchild"] = b
		if h, ok := x.ghostData["atcb"].(func(b bld)); ok {
			h(b)
		}
		if x.branch(x.tb.Not(x.isNil(x.errOf(b)))) {
			return []Case{{Res: []RSpec{ret}}}
		}
		if x.branch(r.workOK) {
			return []Case{{Res: []RSpec{ret}, Mem: []MSpec{{b.buf, RApp{buf, r.out}}, {b.err, RNoErr{}}}}}
		}
		err := IfaceVal{term: x.tb.Fresh("err", SIface)}
		x.assume(x.tb.Not(x.isNil(err)))
		x.ghostData["cberr"] = err
		return []Case{{Res: []RSpec{ret}, Mem: []MSpec{{b.buf, RAny{}}, {b.err, RVal{err}}}}}
	}
	for _, t := range []string{"Builder", "Insert", "Update"} {
		e.add(&Contract{Key: "func:func(*xtorm." + t + ") error", Trusted: true, Spec: spec,
			Why: "a callback uses the " + t + " it is given only through its methods, so it appends to what was built, or makes it fail; it returns normally"})
	}
	extraAxiom["len_cb"] = func(x *X, t *Term) []*Term { return []*Term{x.tb.Ult(t, x.tb.BVBig(64, new2(40)))} }
}

// cbNonNil: a nil callback is outside the claims.
func cbNonNil(c *Ctx) []*Term {
	var out []*Term
	for _, a := range c.args {
		if f, ok := a.(FuncVal); ok && f.term != nil {
			if sg := f.typ.Underlying().(*types.Signature); sg.Results().Len() == 1 {
				out = append(out, c.x.tb.Not(c.x.isNil(f)))
			}
		}
	}
	return out
}

// once: the callback ran exactly once (on paths that reach the end normally).
func once(x *X, n int) {
	x.oblige("the callback is called exactly "+itoa(n)+" time(s)", x.tb.Bool(x.cbCount() == n))
}

// bracket: pre frames, what the callback built, post frames.
func (x *X) bracket(b bld, buf SliceVal, f FuncVal, pre, post []Piece) []Case {
	r := x.cb(f, 0)
	cnt := func(x *X, _ []Value) { once(x, 1) }
	return []Case{
		{Name: "callback succeeds", G: x.tb.And(r.retOK, r.workOK), Mem: []MSpec{{b.buf, RApp{buf, cat(pre, r.out, post)}}, {b.err, RNoErr{}}}, Post: cnt},
		{Name: "callback fails", Mem: []MSpec{{b.buf, RAny{}}, {b.err, RErr{}}}, Post: cnt},
	}
}

var isolation = []string{
	"", "SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED", "SET TRANSACTION ISOLATION LEVEL READ COMMITTED",
	"SET TRANSACTION ISOLATION LEVEL REPEATABLE READ", "SET TRANSACTION ISOLATION LEVEL SERIALIZABLE", "",
}

func (x *X) rowsEnc(data SliceVal, ncols *Term) (string, func(x *X, v Value) Enc) {
	return "rows", func(x *X, v Value) Enc {
		row := v.(SliceVal)
		e := x.rowEnc(row)
		return e
	}
}

func (x *X) rowCat(data SliceVal, ncols *Term) []*Cat {
	nm, f := x.rowsEnc(data, ncols)
	cs := x.catsOf(nm, data, f)
	// and every row has a value for each column
	for _, c := range x.catsOf("rowlen", data, func(x *X, v Value) Enc {
		return Enc{ok: x.tb.Eq(v.(SliceVal).n, ncols)}
	}) {
		c.args = append(c.args, ncols)
		c.empty = true
		cs = append(cs, c)
	}
	return cs
}

// setsCat is the concatenation of the assignments of a map, in the order they are visited.
func (x *X) setsCat(m OpaqueVal) *Cat {
	mt := m.typ.Underlying().(*types.Map)
	return &Cat{name: "sets", args: []*Term{m.t}, from: x.c64(0), to: x.mapLen(m.t), body: func(x *X, i *Term) Enc {
		return x.setEnc(x.mapKey(mt, m.t, i), x.mapVal(mt, m.t, i).(IfaceVal))
	}}
}

func regBuilder(e *Engine) {
	regCallbacks(e)
	op := func(name string, props []string, also []string, cands func(c *Ctx) []*Cat, nres int, body func(c *Ctx, b bld, buf SliceVal) []Case) {
		e.add(&Contract{Key: "(*xtorm.Builder)." + name, Props: props, Also: also, Cands: cands, Assume: cbNonNil, Spec: func(c *Ctx) []Case {
			b := c.b()
			return c.x.opCases(b, nres, func(buf SliceVal) []Case { return body(c, b, buf) })
		}})
	}
	anyArgs := func(c *Ctx, i int) Enc {
		nm, f := c.x.anys(2)
		return c.x.catOver(nm, c.S(i), f)
	}
	op("StmtExecute", []string{"C07"}, []string{"C11", "C15"}, nil, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		en := anyArgs(c, 2)
		return c.x.appendOr(b, buf, Enc{c.x.stmtFrame(c.x.content(c.args[1]), en.r), en.ok})
	})
	id := func(c *Ctx) *Term { return c.x.tb.Conv(c.T(1), 64, false) }
	op("Prepare", []string{"C07"}, nil, nil, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		x := c.x
		return x.appendOr(b, buf, Enc{r: x.frame(msgPrepare, x.vfld(1, id(c)), x.fld(2, x.vfld(1, 5), x.fld(6, x.fld(1, x.content(c.args[2])))))})
	})
	op("Execute", []string{"C07"}, nil, nil, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		en := anyArgs(c, 2)
		return c.x.appendOr(b, buf, Enc{c.x.frame(msgExecute, c.x.vfld(1, id(c)), en.r), en.ok})
	})
	op("Deallocate", []string{"C07"}, nil, nil, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		return c.x.appendOr(b, buf, Enc{r: c.x.frame(msgDeallocate, c.x.vfld(1, id(c)))})
	})
	op("Insert", []string{"C08"}, nil, func(c *Ctx) []*Cat {
		return c.x.rowCat(c.S(3), c.S(2).n)
	}, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		x := c.x
		rows := Enc{ok: x.tb.True()}
		for _, k := range x.rowCat(c.S(3), c.S(2).n) {
			rows.r = append(rows.r, k.piece(x, k.from, k.to)...)
			rows.ok = x.tb.And(rows.ok, k.okT(x, k.from, k.to))
		}
		return x.appendOr(b, buf, Enc{x.frame(msgInsert, x.insertBody(c.args[1], x.cols(c.S(2))), rows.r), rows.ok})
	})
	op("Update", []string{"C09"}, nil, func(c *Ctx) []*Cat {
		return []*Cat{c.x.setsCat(c.args[3].(OpaqueVal))}
	}, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		x := c.x
		cr := x.criteria(c.args[2].(FuncVal), 4)
		m := c.args[3].(OpaqueVal)
		k := x.setsCat(m)
		return x.appendOr(b, buf, Enc{x.frame(msgUpdate, x.updateBody(c.args[1]), cr.r, k.piece(x, k.from, k.to)), x.tb.And(x.okOf(cr), k.okT(x, k.from, k.to))})
	})
	op("Delete", []string{"C09"}, nil, nil, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		x := c.x
		cr := x.criteria(c.args[2].(FuncVal), 3)
		return x.appendOr(b, buf, Enc{x.frame(msgDelete, x.fld(1, x.fld(1, x.content(c.args[1]))), cr.r), x.okOf(cr)})
	})
	op("InsertF", []string{"C08"}, nil, nil, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		x := c.x
		f := c.args[3].(FuncVal)
		r := x.cb(f, 0)
		cnt := func(x *X, _ []Value) { once(x, 1) }
		return []Case{
			{Name: "callback succeeds", G: x.tb.And(r.retOK, r.workOK), Post: cnt,
				Mem: []MSpec{{b.buf, RApp{buf, x.frame(msgInsert, x.insertBody(c.args[1], x.cols(c.S(2))), r.out)}}, {b.err, RNoErr{}}}},
			{Name: "callback fails", Mem: []MSpec{{b.buf, RAny{}}, {b.err, RErr{}}}},
		}
	})
	op("UpdateF", []string{"C09"}, nil, nil, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		x := c.x
		f := c.args[3].(FuncVal)
		cr := x.criteria(c.args[2].(FuncVal), 4)
		r := x.cb(f, 0)
		cnt := func(x *X, _ []Value) { once(x, 1) }
		return []Case{
			{Name: "callback succeeds", G: x.tb.And(r.retOK, r.workOK, x.okOf(cr)), Post: cnt,
				Mem: []MSpec{{b.buf, RApp{buf, x.frame(msgUpdate, x.updateBody(c.args[1]), cr.r, r.out)}}, {b.err, RNoErr{}}}},
			{Name: "callback or criteria fails", Mem: []MSpec{{b.buf, RAny{}}, {b.err, RErr{}}}},
		}
	})
	op("Tx", []string{"C11"}, nil, nil, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		x := c.x
		lvl := c.T(1)
		for i, iso := range isolation {
			if !x.branch(x.tb.Eq(lvl, x.tb.BV(lvl.sort.W, uint64(i)))) {
				continue
			}
			start := "START TRANSACTION"
			if i == 5 {
				start = "START TRANSACTION WITH CONSISTENT SNAPSHOT"
			}
			var pre []Piece
			if iso != "" {
				pre = x.stmtFrame(x.lit(iso), nil)
			}
			return x.bracket(b, buf, c.args[2].(FuncVal), cat(pre, x.stmtFrame(x.lit(start), nil)), x.stmtFrame(x.lit("COMMIT"), nil))
		}
		return []Case{{Name: "unknown isolation level", Mem: []MSpec{{b.buf, RAny{}}, {b.err, RErr{}}}}}
	})
	e.contracts["(*xtorm.Builder).Tx"].Only = true
	op("ExpectFailOnError", []string{"C12"}, nil, nil, 0, func(c *Ctx, b bld, buf SliceVal) []Case {
		x := c.x
		open := x.frame(msgExpOpen, x.vfld(1, x.tb.Conv(c.T(1), 64, false)), x.fld(2, x.vfld(1, 1), x.fld(2, x.by(int('1')))))
		return x.bracket(b, buf, c.args[2].(FuncVal), open, x.frame(msgExpClose))
	})
	ef := e.contracts["(*xtorm.Builder).ExpectFailOnError"]
	ef.Inline = []string{"xproto.ExpectOpen"}
	ef.Pre = func(c *Ctx) []*Term { return []*Term{c.x.tb.Ult(c.T(1), c.x.tb.BV(8, 2))} }
	// the helpers given to callbacks
	child := func(key string, props []string, body func(c *Ctx, b bld, buf SliceVal) []Case) {
		e.add(&Contract{Key: key, Props: props, Only: true, Spec: func(c *Ctx) []Case {
			b := c.b()
			return c.x.opCases(b, 0, func(buf SliceVal) []Case { return body(c, b, buf) })
		}})
	}
	row := func(c *Ctx, b bld, buf SliceVal) []Case { return c.x.appendOr(b, buf, c.x.rowEnc(c.S(1))) }
	child("(*xtorm.Insert).Row", []string{"C08"}, row)
	child("(*xtorm.Insert).RowV", []string{"C08"}, row)
	child("(*xtorm.Update).Set", []string{"C09"}, func(c *Ctx, b bld, buf SliceVal) []Case {
		return c.x.appendOr(b, buf, c.x.setEnc(c.args[1], c.args[2].(IfaceVal)))
	})
	regInsertRow(e)
}

// ---- id capture ----

func regInsertRow(e *Engine) {
	e.add(&Contract{Key: "(*xtorm.Builder).InsertRow", Props: []string{"C08", "C15"}, Only: true, Spec: func(c *Ctx) []Case {
		x := c.x
		b := c.b()
		return x.opCases(b, 1, func(buf SliceVal) []Case {
			row := x.rowEnc(c.S(3))
			ins := x.frame(msgInsert, x.insertBody(c.args[1], x.cols(c.S(2))), row.r)
			return []Case{
				{Name: "encodable", G: x.okOf(row), Mem: []MSpec{{b.buf, RAny{}}, {b.err, RNoErr{}}},
					Post: func(x *X, res []Value) { x.checkCapture(b, buf, ins, res[0]) }},
				{Name: "not encodable", Mem: []MSpec{{b.buf, RAny{}}, {b.err, RErr{}}}, Res: []RSpec{RAny{}}},
			}
		})
	}})
}

// checkCapture: the buffer gains the insert and a statement that stores the id in some variable, the
// returned expression refers to that variable, and its name is a constant followed by a number that no
// other capture in the same unit of work can use.
func (x *X) checkCapture(b bld, buf SliceVal, ins []Piece, fn Value) {
	if x.mute > 0 {
		return
	}
	f, ok := fn.(FuncVal)
	if !ok || f.isNilConst() {
		x.oblige("an expression is returned", x.tb.False())
		return
	}
	p := x.freshBuf("p")
	tag := x.tb.Fresh("tag", SBV(8))
	x.assume(x.tb.And(x.tb.Ult(x.tb.BV(8, 0), tag), x.tb.Ult(tag, x.tb.BV(8, 16))))
	final := x.bufOf(b)
	delete(x.ghostData, "variable")
	r, ok := x.runFn(f, []Value{p, tag})
	if !ok {
		return
	}
	res := r.(TupleVal)
	x.checkR(RNoErr{}, res[1], "error of the returned expression")
	mid := x.tb.Add(buf.n, x.ropeLen(ins))
	name, ok := x.ghostData["variable"].(StrVal)
	if !ok {
		ps := cat(x.lit("@id$"), x.dec(mid))
		name = StrVal{seq: &RopeSeq{ps}, n: x.ropeLen(ps)}
	}
	x.checkR(RApp{p, varRope(x, tag, name)}, res[0], "the returned expression")
	ps := x.content(name)
	if q := x.constDec(name); len(ps) == 1 && q != nil {
		x.checkRope("the variable name", name.seq, name.n, q)
		ps = q
	}
	nice := len(ps) >= 2
	for i, pc := range ps {
		if i < len(ps)-1 {
			_, isC := pc.seq.(*ConstSeq)
			nice = nice && isC
		}
	}
	if nice {
		s, isS := ps[len(ps)-1].seq.(*SymSeq)
		if nice = isS && s.name == "at_dec"; nice {
			v := s.args[0]
			end := final.n
			tb := x.tb
			after := tb.And(tb.Ult(buf.n, v), tb.Ule(v, end))
			if x.decide(after) != 1 {
				after = tb.And(tb.Ule(buf.n, v), tb.Ult(v, end))
			}
			x.oblige("the number in the variable name lies between the lengths before and after", after)
		}
	}
	x.oblige("the variable name is a constant followed by a number", x.tb.Bool(nice))
	pre, _ := ps[0].seq.(*ConstSeq)
	x.oblige("the variable is a user variable", x.tb.Bool(pre != nil && len(pre.s) > 1 && pre.s[0] == '@'))
	stmt := cat(x.lit("SET "), ps, x.lit(" = LAST_INSERT_ID()"))
	x.checkR(RApp{buf, cat(ins, x.stmtFrame(stmt, nil))}, final, "buffer after")
}

// constDec: a string of the length of a constant text and a number, with constant bytes in front, as such.
func (x *X) constDec(s StrVal) []Piece {
	m, k := map[*Term]*big.Int{}, new(big.Int)
	x.tb.lin(x.norm(s.n), big.NewInt(1), m, k)
	if len(m) != 1 || !k.IsInt64() || k.Int64() < 1 || k.Int64() > 64 {
		return nil
	}
	for t, c := range m {
		if t.op != "app" || t.name != "declen" || c.Cmp(big.NewInt(1)) != 0 {
			return nil
		}
		var pre []byte
		for i := int64(0); i < k.Int64(); i++ {
			b := x.norm(s.seq.At(x, x.c64(i)))
			for b.op == "ite" {
				d := x.decide(b.args[0])
				if d == 0 {
					if x.inRangeProve(b.args[0]) {
						d = 1
					} else if x.inRangeProve(x.tb.Not(b.args[0])) {
						d = -1
					}
				}
				switch d {
				case 1:
					b = b.args[1]
				case -1:
					b = b.args[2]
				default:
					return nil
				}
			}
			if !b.IsConst() {
				return nil
			}
			pre = append(pre, byte(b.U64()))
		}
		return cat(x.lit(string(pre)), x.dec(t.args[0]))
	}
	return nil
}
