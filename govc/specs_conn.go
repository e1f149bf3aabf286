package main

// Errors and what they wrap; the contract of reading one answer from the server.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (x *X) setWraps(e IfaceVal, ws []IfaceVal) {
	m, _ := x.ghostData["wraps"].(map[*Term][]IfaceVal)
	n := map[*Term][]IfaceVal{e.term: ws}
	for k, v := range m {
		n[k] = v
	}
	x.ghostData["wraps"] = n
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// errChain lists the concrete errors that err is or wraps; known is false when some are not known.
func (x *X) errChain(err IfaceVal) (found []IfaceVal, known bool) {
	if err.isNilConst() {
		return nil, true
	}
	if err.term == nil {
		if hasMethod(err.typ, "Unwrap") || hasMethod(err.typ, "As") || hasMethod(err.typ, "Is") {
			return []IfaceVal{err}, false
		}
		return []IfaceVal{err}, true
	}
	if m, _ := x.ghostData["plain"].(map[*Term]bool); m[err.term] {
		return nil, true
	}
	if x.fastDecide(x.isNil(err)) == 1 {
		return nil, true
	}
	m, _ := x.ghostData["wraps"].(map[*Term][]IfaceVal)
	ws, ok := m[err.term]
	if !ok {
		return nil, false
	}
	known = true
	for _, w := range ws {
		if w.term == nil && !w.isNilConst() && !hasMethod(w.typ, "Error") {
			continue // an argument that is not an error
		}
		f, k := x.errChain(w)
		found = append(found, f...)
		known = known && k
	}
	return found, known
}

func isPtrTo(t types.Type, name string) bool {
	p, ok := t.(*types.Pointer)
	return ok && typeName(p.Elem()) == name
}

const (
	tXError    = "connection.MySqlXError"
	tChallenge = "connection.ErrRequireAuthenticateContinue"
)

// isOther: an error that neither is nor wraps a server error or a challenge.
func (x *X) isOther(err Value) *Term {
	iv, ok := err.(IfaceVal)
	if !ok {
		return x.tb.False()
	}
	fs, known := x.errChain(iv)
	if !known {
		return x.tb.False()
	}
	for _, f := range fs {
		if isPtrTo(f.typ, tXError) || isPtrTo(f.typ, tChallenge) || typeName(f.typ) == tChallenge {
			return x.tb.False()
		}
	}
	return x.tb.Not(x.isNil(iv))
}

func init() {
	ext("errors.As", "finds the first error of the target's type among the error and those it wraps", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		tgt, ok := args[1].(IfaceVal)
		p, ok2 := tgt.val.(PtrVal)
		if !ok || !ok2 || p.obj == nil {
			x.unsupported("errors.As into an unknown target")
		}
		if _, isI := p.typ.Underlying().(*types.Interface); isI {
			x.unsupported("errors.As into an interface")
		}
		fs, known := x.errChain(args[0].(IfaceVal))
		for _, f := range fs {
			if types.Identical(f.typ, p.typ) {
				x.store(p, f.val, "errors.As")
				return x.tb.True()
			}
		}
		if known || x.choose(2) == 0 {
			return x.tb.False()
		}
		v := x.symVal(p.typ, "as")
		if v, ok := v.(PtrVal); ok && v.obj == nil {
			x.unsupported("errors.As: target %s", p.typ)
		}
		x.store(p, v, "errors.As")
		return x.tb.True()
	})
	ext("errors.Is", "whether the error is or wraps the target", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		a, b := args[0].(IfaceVal), args[1].(IfaceVal)
		if a.isNilConst() || b.isNilConst() {
			return x.tb.And(x.isNil(a), x.isNil(b))
		}
		if a.term != nil && b.term != nil {
			if m, _ := x.ghostData["plain"].(map[*Term]bool); m[a.term] {
				return x.tb.Eq(a.term, b.term)
			}
		}
		return x.tb.Fresh("is", SBool)
	})
}

// ---- the server's messages ----

const (
	smOK        = 0
	smError     = 1
	smAuthCont  = 3
	smAuthOK    = 4
	smMeta      = 12
	smExecuteOK = 17
)

// srvMsg describes the message at position p of the stream.
type srvMsg struct {
	p, u, typ, next *Term
	body, bodyN     *Term
	complete        *Term
}

func (r *reader) msg(p *Term) srvMsg {
	x, tb := r.x, r.x.tb
	at := func(i int64) *Term { return r.seq().At(x, tb.Add(p, x.c64(i))) }
	u := tb.Zext(64, tb.Concat(at(3), tb.Concat(at(2), tb.Concat(at(1), at(0)))))
	m := srvMsg{p: p, u: u, typ: at(4), next: tb.Add(p, tb.Add(x.c64(4), u)), body: tb.Add(p, x.c64(5)), bodyN: tb.Sub(u, x.c64(1))}
	m.complete = tb.And(tb.Ule(tb.Add(p, x.c64(5)), r.end()), tb.Ule(x.c64(1), u), tb.Ule(m.next, r.end()))
	return m
}

func (m srvMsg) is(x *X, ks ...uint64) *Term {
	var ds []*Term
	for _, k := range ks {
		ds = append(ds, x.tb.Eq(m.typ, x.tb.BV(8, k)))
	}
	return x.tb.Or(ds...)
}

// cont: the message is complete and does not end the answer.
func (m srvMsg) cont(x *X) *Term {
	tb := x.tb
	return tb.And(m.complete, tb.Not(m.is(x, smOK, smAuthOK, smExecuteOK, smError, smAuthCont)),
		tb.Implies(m.is(x, smMeta), x.pbOK("ColumnMetaData", m.body, m.bodyN)))
}

// fin is the position of the message that ends the answer starting at p, or where reading on fails.
func (x *X) fin(p *Term) *Term { return x.tb.App("answerend", SBV(64), p) }

func (x *X) unfoldFin(p *Term) {
	tb := x.tb
	r := x.ghostData["stream"].(*reader)
	m := r.msg(p)
	c := m.cont(x)
	x.assume(tb.Implies(c, tb.Eq(x.fin(p), x.fin(m.next))))
	x.assume(tb.Implies(tb.Not(c), tb.Eq(x.fin(p), p)))
}

func regConn(e *Engine) {
	const key = "(*netx/connection.conn).Read"
	field := connField
	answersHard := func(x *X, ct *Term) *Term {
		var ds []*Term
		for _, k := range []uint64{msgReset, msgAuthStart, msgAuthCont} {
			ds = append(ds, x.tb.Eq(ct, x.tb.BV(ct.sort.W, k)))
		}
		return x.tb.Or(ds...)
	}
	sameErr := func(x *X, name string, a, b Value) {
		ia, ok := a.(IfaceVal)
		ib, ok2 := b.(IfaceVal)
		good := ok && ok2 && ia.term == nil && ib.term == nil && ia.typ != nil && ib.typ != nil && isPtrTo(ib.typ, tXError)
		if good {
			good = x.sameValue(ia.val, ib.val)
		}
		x.oblige(name, x.tb.Bool(good))
	}
	e.add(&Contract{Key: key, Props: []string{"C16", "C17", "C19"},
		Pre: func(c *Ctx) []*Term {
			x := c.x
			if p, ok := c.args[0].(PtrVal); !ok || p.obj == nil {
				return []*Term{x.tb.False()}
			}
			return []*Term{x.tb.Not(x.isNil(field(x, c.args[0], "r"))), x.tb.Not(x.isNil(field(x, c.args[0], "netConn")))}
		},
		Begin: func(c *Ctx) {
			x := c.x
			r := x.reader(field(x, c.args[0], "r"))
			x.ghostData["stream"] = r
			x.ghostData["P"] = r.st().pos
			x.ghostData["P0"] = r.st().pos
			x.unfoldFin(r.st().pos)
		},
		Ghost: &GhostLoop{
			Check: func(x *X) {
				r := x.ghostData["stream"].(*reader)
				x.oblige("loop invariant: only messages that do not end the answer were skipped, each of them entirely",
					x.tb.Eq(x.fin(r.st().pos), x.fin(x.ghostData["P0"].(*Term))))
			},
			Head: func(x *X) {
				r := x.ghostData["stream"].(*reader)
				P := x.tb.Fresh("P", SBV(64))
				x.assume(x.tb.Ule(P, r.end()))
				x.assume(x.tb.Eq(x.fin(P), x.fin(x.ghostData["P0"].(*Term))))
				r.stale()
				r.set(rdState{pos: P, ext: P})
				x.ghostData["P"] = P
				x.unfoldFin(P)
			},
		},
		Spec: func(c *Ctx) []Case {
			x, tb := c.x, c.x.tb
			ct := c.T(2)
			if c.call {
				return []Case{x.readOutcome(c, ct, answersHard(x, ct))}
			}
			r := x.ghostData["stream"].(*reader)
			q := x.ghostData["P"].(*Term)
			if fin := x.fin(x.ghostData["P0"].(*Term)); x.decide(tb.Eq(fin, q)) != 1 {
				q = fin
			}
			m := r.msg(q)
			boundary := func(x *X) {
				x.oblige("the stream is left behind the message that ends the answer", tb.Eq(r.st().pos, m.next))
			}
			fail := func(x *X, res []Value) {
				x.oblige("no response is returned", x.isNil(res[0]))
				x.oblige("an error is returned that is neither a server error nor a challenge", x.isOther(res[1]))
			}
			ok := func(name string, ks ...uint64) Case {
				return Case{Name: name, G: m.is(x, ks...), Res: []RSpec{RSym{func(x *X, v Value) []*Term { return []*Term{x.isNil(v)} }}, RNoErr{}},
					Post: func(x *X, res []Value) { boundary(x) }}
			}
			errOK := x.pbOK("Error", m.body, m.bodyN)
			pkg := x.eng.findPkg(modPrefix + "/protobuf/mysqlx")
			errT := pkg.Scope().Lookup("Error").Type().Underlying().(*types.Struct)
			want := func(f string) Value {
				for i := 0; i < errT.NumFields(); i++ {
					if errT.Field(i).Name() == f {
						return x.pbVal(errT.Field(i).Type().(*types.Pointer).Elem(), "Error", f, m.body, m.bodyN)
					}
				}
				x.unsupported("field %s of the protobuf error", f)
				return nil
			}
			sev := want("Severity").(*Term)
			sev = tb.Ite(x.pbHas("Error", "Severity", m.body, m.bodyN), sev, tb.BV(32, 0))
			srvErr := func(hard bool) func(x *X, res []Value) {
				return func(x *X, res []Value) {
					boundary(x)
					iv, isI := res[0].(IfaceVal)
					var p PtrVal
					if isI && iv.term == nil && iv.typ != nil && isPtrTo(iv.typ, tXError) {
						p = iv.val.(PtrVal)
					}
					if p.obj == nil {
						x.oblige("the response is the server's error", tb.False())
						return
					}
					sv := x.load(p, "spec").(StructVal)
					st := sv.typ.Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						switch n := st.Field(i).Name(); n {
						case "Severity":
							x.oblige("severity of the server's error", tb.Eq(sv.fields[i].(*Term), sev))
						case "Code":
							x.oblige("code of the server's error", tb.Eq(sv.fields[i].(*Term), want(n).(*Term)))
						case "SqlState", "Msg":
							s := sv.fields[i].(StrVal)
							x.checkRope(n+" of the server's error", s.seq, s.n, x.content(want(n)))
						}
					}
					if hard {
						sameErr(x, "the server's error is also returned as error", res[0], res[1])
					} else {
						x.oblige("the server's error is not returned as error", x.isNil(res[1]))
					}
				}
			}
			sct, _ := x.eng.findPkg(modPrefix + "/protobuf/mysqlx_session").Scope().Lookup("AuthenticateContinue").Type().Underlying().(*types.Struct)
			var chal Value
			for i := 0; i < sct.NumFields(); i++ {
				if sct.Field(i).Name() == "AuthData" {
					chal = x.pbVal(sct.Field(i).Type(), "AuthenticateContinue", "AuthData", m.body, m.bodyN)
				}
			}
			return []Case{
				{Name: "truncated stream or bad length", G: tb.Not(m.complete), Post: fail},
				ok("success", smOK, smAuthOK, smExecuteOK),
				{Name: "malformed metadata", G: m.is(x, smMeta), Post: fail},
				{Name: "malformed server error", G: tb.And(m.is(x, smError), tb.Not(errOK)), Post: fail},
				{Name: "server error that is fatal or answers a session message", G: tb.And(m.is(x, smError), tb.Or(tb.Eq(sev, tb.BV(32, 1)), answersHard(x, ct))), Post: srvErr(true)},
				{Name: "server error", G: m.is(x, smError), Post: srvErr(false)},
				{Name: "unexpected challenge", G: tb.And(m.is(x, smAuthCont), tb.Ne(ct, tb.BV(32, msgAuthStart))), Post: func(x *X, res []Value) { boundary(x); fail(x, res) }},
				{Name: "malformed challenge", G: tb.And(m.is(x, smAuthCont), tb.Not(x.pbOK("AuthenticateContinue", m.body, m.bodyN))), Post: fail},
				{Name: "challenge", G: m.is(x, smAuthCont), Post: func(x *X, res []Value) {
					boundary(x)
					x.oblige("no response is returned", x.isNil(res[0]))
					iv, isI := res[1].(IfaceVal)
					var p PtrVal
					if isI && iv.term == nil && iv.typ != nil && isPtrTo(iv.typ, tChallenge) {
						p = iv.val.(PtrVal)
					}
					if p.obj == nil {
						x.oblige("the error is the challenge", tb.False())
						return
					}
					sv := x.load(p, "spec").(StructVal)
					st := sv.typ.Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == "AuthData" {
							s := sv.fields[i].(SliceVal)
							x.checkRope("challenge data", x.sliceSeq(s), s.n, x.content(chal))
						}
					}
				}},
			}
		}})
}

// readOutcome is one of the outcomes of reading an answer, as the callers see it.
func (x *X) readOutcome(c *Ctx, ct, hardCt *Term) Case {
	tb := x.tb
	pkg := x.eng.findPkg(modPrefix + "/netx/connection")
	mk := func(name string) (PtrVal, *types.Pointer) {
		t := pkg.Scope().Lookup(name).Type()
		o := x.newObj('s', t, name)
		x.st.vals[o.id] = x.symVal(t, name)
		return PtrVal{obj: o, typ: t}, types.NewPointer(t)
	}
	switch k := x.choose(5); k {
	case 0:
		return Case{Res: []RSpec{RVal{IfaceVal{}}, RVal{IfaceVal{}}}}
	case 1, 2:
		p, t := mk("MySqlXError")
		sv := x.st.vals[p.obj.id].(StructVal)
		st := sv.typ.Underlying().(*types.Struct)
		var sev *Term
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Severity" {
				sev = sv.fields[i].(*Term)
			}
		}
		hard := tb.Or(tb.Eq(sev, tb.BV(32, 1)), hardCt)
		v := IfaceVal{typ: t, val: p}
		if k == 1 {
			x.assume(tb.Not(hard))
			return Case{Res: []RSpec{RVal{v}, RVal{IfaceVal{}}}}
		}
		x.assume(hard)
		return Case{Res: []RSpec{RVal{v}, RVal{v}}}
	case 3:
		x.assume(tb.Eq(ct, tb.BV(ct.sort.W, msgAuthStart)))
		p, t := mk("ErrRequireAuthenticateContinue")
		return Case{Res: []RSpec{RVal{IfaceVal{}}, RVal{IfaceVal{typ: t, val: p}}}}
	}
	return Case{Res: []RSpec{RVal{IfaceVal{}}, RVal{x.ioErr()}}}
}
