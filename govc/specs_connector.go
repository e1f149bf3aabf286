package main

// Opening connections: dialing, TLS and authentication as a log, and the contracts of the connector.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type tlsInfo struct {
	over *Term // the connection below
	cfg  *Term
	done bool // handshake succeeded
}

// cxState is what was opened and what the server said.
type cxState struct {
	open   map[*Term]bool // connections that were dialed and are not closed
	tls    map[*Term]tlsInfo
	rd     map[*Term]*Term // what a buffered reader reads from
	authed *Term           // the connection on which the last authentication exchange was accepted
	denied IfaceVal        // the server's error that answered the last exchange
	chal   PtrVal          // the challenge that answered the last exchange
	n      int             // messages of the current exchange
	msg    *Obj            // the message the mechanism made last
	typ    int
	asked  *Term // the connection on which TLS was asked for and an answer read
	failed bool  // something failed
	conted bool  // the mechanism was asked to continue in the current exchange
	last   *Term // the connection the last authentication message was sent on
}

func (s cxState) clone() cxState {
	o := s
	o.open, o.tls, o.rd = map[*Term]bool{}, map[*Term]tlsInfo{}, map[*Term]*Term{}
	for k, v := range s.open {
		o.open[k] = v
	}
	for k, v := range s.tls {
		o.tls[k] = v
	}
	for k, v := range s.rd {
		o.rd[k] = v
	}
	return o
}

func (x *X) cx() (cxState, bool) {
	s, ok := x.st.ghost["cx"].(cxState)
	if !ok {
		return s, false
	}
	return s.clone(), true
}

func (x *X) cxMust() cxState {
	s, ok := x.cx()
	if !ok {
		x.unsupported("connection operation outside the functions under contract")
	}
	return s
}

func (x *X) setCx(s cxState) { x.st.ghost["cx"] = s }

// netID identifies a network connection.
func (x *X) netID(v Value) *Term {
	switch p := v.(type) {
	case IfaceVal:
		if p.term != nil {
			return p.term
		}
		if o, ok := p.val.(OpaqueVal); ok {
			return x.netID(o)
		}
	case OpaqueVal:
		if p.t.op == "app" && len(p.t.args) == 1 && len(p.t.name) > 3 && p.t.name[:3] == "pl_" {
			return p.t.args[0]
		}
		return p.t
	}
	x.unsupported("network connection %T", v)
	return nil
}

func (x *X) ptrType(path, name string) types.Type {
	t := x.eng.namedType(path, name)
	if t == nil {
		x.unsupported("type %s.%s is not loaded", path, name)
	}
	return types.NewPointer(t)
}

// secure: a TLS connection after its handshake, one dialed as TLS, or a unix socket.
func (x *X) secure(s cxState, id *Term) *Term {
	if t, ok := s.tls[id]; ok {
		return x.tb.Bool(t.done)
	}
	if id.sort != SIface {
		return x.tb.False()
	}
	return x.tb.Or(x.tb.Eq(x.dyn(id), x.tid(x.ptrType("crypto/tls", "Conn"))), x.tb.Eq(x.dyn(id), x.tid(x.ptrType("net", "UnixConn"))))
}

func (x *X) cfgTerm(v Value) *Term {
	if o, ok := v.(OpaqueVal); ok {
		return o.t
	}
	return x.tb.Fresh("config", SRef)
}

func (x *X) closeNet(id *Term) Value {
	s := x.cxMust()
	if t, ok := s.tls[id]; ok {
		delete(s.open, t.over)
	}
	delete(s.open, id)
	x.setCx(s)
	if x.choose(2) == 1 {
		return x.ioErr()
	}
	return IfaceVal{}
}

func connField(x *X, recv Value, name string) Value {
	p := recv.(PtrVal)
	sv := x.st.vals[p.obj.id].(StructVal)
	if path := x.eng.fieldOf(sv.typ, name); path != nil {
		return x.walkPath(sv, path)
	}
	x.unsupported("field %s of %s", name, sv.typ)
	return nil
}

// leaf is a field of a struct or of a struct of the repository in it.
type leaf struct {
	path []int
	name string
	typ  types.Type
}

func leaves(t types.Type) []leaf {
	var out []leaf
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, ok := f.Type().Underlying().(*types.Struct); ok && !isOpaqueNamed(f.Type()) {
			for _, l := range leaves(f.Type()) {
				out = append(out, leaf{append([]int{i}, l.path...), l.name, l.typ})
			}
			continue
		}
		out = append(out, leaf{[]int{i}, f.Name(), f.Type()})
	}
	return out
}

var fieldTypes = map[string]string{"r": "*bufio.Reader", "netConn": "net.Conn", "dialer": modPrefix + "/netx/connector.Dialer", "tlsConfig": "*crypto/tls.Config",
	"authentication": modPrefix + "/netx/connector/authentication.Starter", "connector": modPrefix + "/netx.Connector"}

// The texts of a connector: what these exported methods return.
var fieldGetters = map[string]string{"network": "Network", "address": "String", "userName": "UserName", "password": "Password", "database": "Database"}

// fieldOf finds a field by its name, else as the only one of its type or the one its method returns.
func (e *Engine) fieldOf(t types.Type, name string) []int {
	ls := leaves(t)
	var at []int
	for _, l := range ls {
		if l.name == name {
			if at != nil {
				return nil
			}
			at = l.path
		}
	}
	if at != nil {
		return at
	}
	if want, ok := fieldTypes[name]; ok {
		for _, l := range ls {
			if l.typ.String() == want {
				if at != nil {
					return nil
				}
				at = l.path
			}
		}
		return at
	}
	fn := e.findFn("(*netx/connector.Connector)." + fieldGetters[name])
	if fn == nil || len(fn.Blocks) != 1 {
		return nil
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			at = append(at, in.Field)
		case *ssa.Field:
			at = append(at, in.Field)
		}
	}
	for _, l := range ls {
		if samePath(l.path, at) {
			return at
		}
	}
	return nil
}

func init() {
	ext("bufio.NewReaderSize", "a reader of the given connection", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		r := OpaqueVal{x.tb.Fresh("reader", SRef), fn.Signature.Results().At(0).Type()}
		x.assume(x.tb.Not(x.isNil(r)))
		s := x.cxMust()
		s.rd[r.t] = x.netID(args[0])
		x.setCx(s)
		return r
	})
	ext("bufio.NewReader", "a reader of the given connection", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return externs["bufio.NewReaderSize"](x, fn, args, in)
	})
	ext("(*bufio.Reader).Buffered", "how much of the stream was read ahead", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		n := x.tb.Fresh("buffered", SBV(64))
		x.assume(x.tb.Ult(n, x.tb.BVBig(64, new2(40))))
		return n
	})
	addr := func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		d := IfaceVal{term: x.tb.Fresh("addr", SIface)}
		x.assume(x.tb.Not(x.isNil(d)))
		return d
	}
	text := func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.symVal(types.Typ[types.String], "addrtext")
	}
	for _, t := range []string{"iface:net.Conn", "(*net.TCPConn)", "(*net.UnixConn)", "(*crypto/tls.Conn)"} {
		ext(t+".RemoteAddr", "an address", addr)
		ext(t+".LocalAddr", "an address", addr)
	}
	ext("iface:net.Addr.Network", "a text", text)
	ext("iface:net.Addr.String", "a text", text)
	ext("(*bufio.Reader).Reset", "drops what is buffered and reads from the given connection", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		s := x.cxMust()
		s.rd[args[0].(OpaqueVal).t] = x.netID(args[1])
		x.setCx(s)
		return nil
	})
	ext("crypto/tls.Client", "a TLS connection over the given one, without its handshake", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		c := OpaqueVal{x.tb.Fresh("tlsconn", SRef), fn.Signature.Results().At(0).Type()}
		x.assume(x.tb.Not(x.isNil(c)))
		s := x.cxMust()
		over := x.netID(args[0])
		if recv, ok := x.ghostData["connector"].(PtrVal); ok {
			g := x.tb.False()
			if over.sort == SIface {
				g = x.tb.Eq(x.dyn(over), x.tid(x.ptrType("net", "TCPConn")))
			}
			x.oblige("TLS is used only over TCP with TLS configured", x.tb.And(g, x.tb.Not(x.isNil(connField(x, recv, "tlsConfig")))))
		}
		s.tls[c.t] = tlsInfo{over: over, cfg: x.cfgTerm(args[1])}
		x.setCx(s)
		return c
	})
	hs := func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		s := x.cxMust()
		id := x.netID(args[0])
		t, ok := s.tls[id]
		if !ok {
			x.unsupported("handshake of an unknown TLS connection")
		}
		if x.ghostData["connector"] != nil {
			x.oblige("the TLS handshake begins after TLS was asked for on that connection and answered", x.tb.Bool(s.asked == t.over))
		}
		if x.choose(2) == 1 {
			return x.ioErr()
		}
		t.done = true
		s.tls[id] = t
		x.setCx(s)
		return IfaceVal{}
	}
	ext("(*crypto/tls.Conn).Handshake", "succeeds or fails", hs)
	ext("(*crypto/tls.Conn).HandshakeContext", "succeeds or fails", hs)
	ext("(*crypto/tls.Config).Clone", "an equal configuration", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value { return args[0] })
	ext("iface:context.Context.Err", "an error once the context is done, before that nil", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		if x.poolU() != nil {
			if x.pool().done || x.choose(2) == 1 {
				x.seenDone()
				return x.ioErr()
			}
			return IfaceVal{}
		}
		if x.choose(2) == 1 {
			return x.ioErr()
		}
		return IfaceVal{}
	})
	cl := func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.closeNet(x.netID(args[0]))
	}
	ext("(*crypto/tls.Conn).Close", "closes the TLS connection and the one below", cl)
	ext("iface:net.Conn.Close", "closes the connection", cl)
	ext("iface:netx/connector.Dialer.DialContext", "a new open connection, or an error", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		s := x.cxMust()
		if recv, ok := x.ghostData["connector"].(PtrVal); ok {
			x.obligeSame("the connector's own dialer is asked", connField(x, recv, "dialer"), args[0])
			x.obligeSame("the configured network is dialed", connField(x, recv, "network"), args[2])
			x.obligeSame("the configured address is dialed", connField(x, recv, "address"), args[3])
		}
		if x.choose(2) == 1 {
			return TupleVal{IfaceVal{}, x.ioErr()}
		}
		d := IfaceVal{term: x.tb.Fresh("netconn", SIface)}
		x.assume(x.tb.Not(x.isNil(d)))
		s.open[d.term] = true
		x.setCx(s)
		return TupleVal{d, IfaceVal{}}
	})
}

// errCode is the code of a server's error.
func errCode(x *X, e IfaceVal) *Term {
	sv := x.load(e.val.(PtrVal), "spec").(StructVal)
	st := sv.typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Code" {
			return sv.fields[i].(*Term)
		}
	}
	x.unsupported("server error without a code")
	return nil
}

func regConnector(e *Engine) {
	const dir = "(*netx/connection.conn)."
	const adir = "netx/connector/authentication"
	// a mechanism's message: one frame of the given type
	made := func(x *X, typ int) Case {
		o := x.newObj('b', types.NewSlice(types.Typ[types.Uint8]), "authmsg")
		n := x.tb.Fresh("authlen", SBV(64))
		x.assume(x.tb.Ule(x.c64(5), n))
		x.assume(x.tb.Ult(n, x.tb.BVBig(64, new2(32))))
		body := x.symSeq("authbody")
		x.st.bytes[o.id] = &RopeSeq{cat(x.le32(x.tb.Sub(n, x.c64(4))), x.by(typ), []Piece{{seq: body, n: x.tb.Sub(n, x.c64(5)), lab: "body"}})}
		s := x.cxMust()
		s.msg, s.typ = o, typ
		x.setCx(s)
		return Case{Res: []RSpec{RVal{SliceVal{obj: o, off: x.c64(0), n: n, cap: n, isnil: x.tb.False(), elem: types.Typ[types.Uint8]}}}}
	}
	// given: what a mechanism is asked with are the mechanism and the credentials that were given.
	given := func(x *X, mech, creds Value, plain bool) {
		if want, ok := x.ghostData["starter"]; ok && !plain {
			x.obligeSame("the configured mechanism is used", want.(Value), mech)
		}
		if want, ok := x.ghostData["creds"]; ok {
			x.obligeSame("the given credentials are used", want.(Value), creds)
		}
		recv, ok := x.ghostData["connector"].(PtrVal)
		if !ok {
			return
		}
		iv, _ := creds.(IfaceVal)
		if iv.typ == nil {
			x.oblige("the configured credentials are used", x.tb.False())
			return
		}
		for _, f := range []string{"userName", "password", "database"} {
			m := x.eng.prog.LookupMethod(iv.typ, nil, fieldGetters[f])
			if m == nil {
				x.unsupported("credentials %s", iv.typ)
			}
			if r, ok := x.runFn(FuncVal{fn: m}, []Value{iv.val}); ok {
				x.obligeSame("the configured "+f+" is used", connField(x, recv, f), r)
			}
		}
	}
	starter := &Contract{Key: "iface:" + adir + ".Starter.Start", Trusted: true, Why: "a mechanism's start is one AuthenticateStart message (proved for the repository's mechanisms by C18)",
		Spec: func(c *Ctx) []Case {
			given(c.x, c.args[0], c.args[2], false)
			s := c.x.cxMust()
			s.conted = false
			c.x.setCx(s)
			return []Case{made(c.x, msgAuthStart)}
		}}
	cont := func(k string) *Contract {
		return &Contract{Key: k, Trusted: true, Why: "a mechanism's answer is one AuthenticateContinue message (proved for the repository's mechanisms by C18)",
			Spec: func(c *Ctx) []Case {
				x := c.x
				given(x, c.args[0], c.args[2], false)
				s := x.cxMust()
				ok := false
				if s.chal.obj != nil {
					sv := x.load(s.chal, "spec").(StructVal)
					st := sv.typ.Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == "AuthData" {
							d, a := sv.fields[i].(SliceVal), c.S(3)
							ok = d.obj == a.obj && x.sameT(d.off, a.off) && x.sameT(d.n, a.n)
						}
					}
				}
				x.oblige("the mechanism continues with the challenge the server sent", x.tb.Bool(ok))
				s.conted = true
				x.setCx(s)
				return []Case{made(x, msgAuthCont)}
			}}
	}
	e.add(starter)
	e.add(cont("iface:" + adir + ".StartContinuer.Continue"))
	startAgain := *starter
	startAgain.Key = "iface:" + adir + ".StartContinuer.Start"
	e.add(&startAgain)
	plainStart := &Contract{Key: "(" + adir + "/plain.auth).Start", Trusted: true, Why: "one AuthenticateStart message (proved by C18)", Spec: func(c *Ctx) []Case {
		x, tb := c.x, c.x.tb
		s := x.cxMust()
		g := tb.False()
		if s.denied.typ != nil {
			g = tb.Eq(errCode(x, s.denied), tb.BV(32, 1045))
		}
		given(x, c.args[0], c.args[2], true)
		x.oblige("the password is sent in plain form only after the configured mechanism was denied access", g)
		s = x.cxMust()
		s.n, s.conted = 100, false // from here on the exchange is the plain one
		x.setCx(s)
		return []Case{made(x, msgAuthStart)}
	}}
	plainPtr := *plainStart
	plainPtr.Key = "(*" + adir + "/plain.auth).Start"
	ready := func(x *X, recv Value, what string) (cxState, *Term) {
		s := x.cxMust()
		p, ok := recv.(PtrVal)
		if !ok || p.obj == nil {
			x.unsupported("connection %T", recv)
		}
		id := x.netID(connField(x, recv, "netConn"))
		x.oblige(what+": answers are read from the connection that is written to", x.tb.Bool(s.rd[connField(x, recv, "r").(OpaqueVal).t] == id))
		return s, id
	}
	// request: what the connector sends before it authenticates is the request for TLS.
	request := func(c *Ctx) *Term {
		x := c.x
		_, id := ready(x, c.args[0], "sending")
		if x.ghostData["connector"] != nil {
			b := c.S(2)
			x.checkRope("what is sent before authentication is the request for TLS", x.sliceSeq(b), b.n,
				x.frame(msgCapSet, x.fld(1, x.fld(1, x.fld(1, x.lit("tls")), x.wrap('a', 2, x.scBool(x.tb.True()))))))
		}
		return id
	}
	writeOne := &Contract{Key: dir + "WriteOne", Pre: func(c *Ctx) []*Term { return e.contracts[dir+"WriteOne"].Pre(c) }, Spec: func(c *Ctx) []Case {
		x, tb := c.x, c.x.tb
		b := c.S(2)
		if s := x.cxMust(); s.msg == nil && x.ghostData["connector"] != nil {
			id := request(c)
			cs := x.readOutcome(c, tb.BV(32, msgCapSet), tb.False())
			if !x.satWith(tb.True()) {
				panic(abortPath{"outcome impossible"})
			}
			s := x.cxMust()
			if err := cs.Res[1].(RVal).V.(IfaceVal); err.isNilConst() {
				s.asked = id
			} else {
				s.failed = true
			}
			x.setCx(s)
			return []Case{cs}
		}
		s, id := ready(x, c.args[0], "authentication")
		x.oblige("what is sent is the message the mechanism made last, entirely", tb.Bool(s.msg != nil && b.obj == s.msg && x.sameT(b.off, x.c64(0))))
		if need, ok := x.ghostData["tlsneeded"].(func(cxState, *Term) *Term); ok {
			x.oblige("over TCP with TLS configured, authentication happens on a TLS connection over it after a successful handshake with that configuration", need(s, id))
		}
		if s.n == 100 {
			x.oblige("the password is sent in plain form only over TLS or a unix socket", x.secure(s, id))
		}
		ct := tb.Zext(32, x.sliceSeq(b).At(x, x.c64(4)))
		hard := tb.Or(tb.Eq(ct, tb.BV(32, msgReset)), tb.Eq(ct, tb.BV(32, msgAuthStart)), tb.Eq(ct, tb.BV(32, msgAuthCont)))
		cs := x.readOutcome(c, ct, hard)
		if !x.satWith(tb.True()) {
			panic(abortPath{"outcome impossible"})
		}
		s = x.cxMust()
		s.authed, s.denied, s.chal = nil, IfaceVal{}, PtrVal{}
		s.last = id
		err := cs.Res[1].(RVal).V.(IfaceVal)
		s.failed = s.failed || !err.isNilConst()
		switch {
		case err.isNilConst():
			s.authed = id
		case err.term == nil && isPtrTo(err.typ, tXError):
			s.denied = err
		case err.term == nil && isPtrTo(err.typ, tChallenge):
			s.chal = err.val.(PtrVal)
		}
		x.setCx(s)
		return []Case{cs}
	}}
	send := &Contract{Key: dir + "Send", Pre: func(c *Ctx) []*Term { return e.contracts[dir+"Send"].Pre(c) }, Spec: func(c *Ctx) []Case {
		x := c.x
		id := request(c)
		s := x.cxMust()
		cs := e.contracts[dir+"Send"].Spec(c)
		if _, ok := cs[0].Res[1].(RNoErr); ok && len(cs) == 1 {
			s.asked = id
		} else {
			s.failed = true
		}
		x.setCx(s)
		return cs
	}}
	// answered: a challenge was left unanswered only by a mechanism that cannot answer one.
	answered := func(x *X, s cxState, mech Value) {
		if s.chal.obj == nil || s.conted || s.n == 100 {
			return
		}
		it := x.eng.namedType(modPrefix+"/"+adir, "StartContinuer")
		iv, _ := mech.(IfaceVal)
		g := x.tb.False()
		if iv.term != nil {
			g = x.tb.Not(x.implements(iv.term, it))
		} else if iv.typ != nil {
			g = x.tb.Bool(!types.Implements(iv.typ, it.Underlying().(*types.Interface)))
		}
		x.oblige("the server's challenge is answered by a mechanism that can", g)
	}
	local := map[string]*Contract{}
	for _, m := range []string{"mysql41", "sha256"} {
		for _, ptr := range []string{"", "*"} {
			st, co := *starter, *cont("(" + ptr + adir + "/" + m + ".auth).Continue")
			st.Key = "(" + ptr + adir + "/" + m + ".auth).Start"
			local[st.Key], local[co.Key] = &st, &co
		}
	}
	for k, c := range map[string]*Contract{writeOne.Key: writeOne, send.Key: send, plainStart.Key: plainStart, plainPtr.Key: &plainPtr} {
		local[k] = c
	}
	empty := func() cxState {
		return cxState{open: map[*Term]bool{}, tls: map[*Term]tlsInfo{}, rd: map[*Term]*Term{}}
	}
	e.add(&Contract{Key: dir + "Authenticate", Props: []string{"C19"}, Only: true, Local: local,
		Pre: func(c *Ctx) []*Term {
			x := c.x
			if p, ok := c.args[0].(PtrVal); !ok || p.obj == nil {
				return []*Term{x.tb.False()}
			}
			return []*Term{x.tb.Not(x.isNil(connField(x, c.args[0], "r"))), x.tb.Not(x.isNil(connField(x, c.args[0], "netConn"))), x.tb.Not(x.isNil(c.args[1])), x.tb.Not(x.isNil(c.args[3]))}
		},
		Begin: func(c *Ctx) {
			x := c.x
			x.ghostData["creds"], x.ghostData["starter"] = c.args[2], c.args[3]
			s := empty()
			s.rd[connField(x, c.args[0], "r").(OpaqueVal).t] = x.netID(connField(x, c.args[0], "netConn"))
			x.setCx(s)
		},
		Writes: func(c *Ctx) []Region { return nil },
		Spec: func(c *Ctx) []Case {
			return []Case{{Post: func(x *X, res []Value) {
				s := x.cxMust()
				x.oblige("success is reported only when the server accepted", x.tb.Or(x.tb.Not(x.isNil(res[0])), x.tb.Bool(s.authed != nil)))
				x.oblige("success is reported when the server accepted", x.tb.Or(x.isNil(res[0]), x.tb.Bool(s.authed == nil)))
				answered(x, s, c.args[3])
				if s.denied.typ != nil {
					fs, _ := x.errChain(res[0].(IfaceVal))
					ok := false
					for _, f := range fs {
						ok = ok || f.typ != nil && isPtrTo(f.typ, tXError) && x.sameValue(f.val, s.denied.val)
					}
					x.oblige("the server's refusal is the error returned", x.tb.Bool(ok))
				}
			}}}
		}})
	e.add(&Contract{Key: "(*netx/connector.Connector).New", Props: []string{"C19"}, Local: local,
		Pre: func(c *Ctx) []*Term {
			x := c.x
			if p, ok := c.args[0].(PtrVal); !ok || p.obj == nil {
				return []*Term{x.tb.False()}
			}
			return []*Term{x.tb.Not(x.isNil(c.args[1])), x.tb.Not(x.isNil(connField(x, c.args[0], "dialer"))), x.tb.Not(x.isNil(connField(x, c.args[0], "authentication")))}
		},
		Begin: func(c *Ctx) {
			x, tb := c.x, c.x.tb
			cfg := connField(x, c.args[0], "tlsConfig").(OpaqueVal)
			x.setCx(empty())
			x.ghostData["connector"] = c.args[0].(PtrVal)
			x.ghostData["starter"] = connField(x, c.args[0], "authentication")
			x.ghostData["tlsneeded"] = func(s cxState, id *Term) *Term {
				if t, ok := s.tls[id]; ok {
					return tb.And(tb.Bool(t.done && s.open[t.over]), tb.Eq(t.cfg, cfg.t))
				}
				if id.sort != SIface {
					return tb.False()
				}
				return tb.Or(x.isNil(cfg), tb.Ne(x.dyn(id), x.tid(x.ptrType("net", "TCPConn"))))
			}
		},
		Writes: func(c *Ctx) []Region { return nil },
		Spec: func(c *Ctx) []Case {
			return []Case{{Post: func(x *X, res []Value) {
				tb := x.tb
				s := x.cxMust()
				if x.branch(x.isNil(res[1])) {
					iv, _ := res[0].(IfaceVal)
					p, ok := iv.val.(PtrVal)
					if !ok || p.obj == nil || iv.term != nil {
						x.oblige("a connection is returned when there is no error", tb.False())
						return
					}
					id := x.netID(connField(x, p, "netConn"))
					x.oblige("the connection returned is one on which the server accepted authentication", tb.Bool(s.authed == id))
					under := id
					if t, ok := s.tls[id]; ok {
						under = t.over
					}
					x.oblige("the connection returned is open", tb.Bool(s.open[under]))
					x.oblige("no other connection is left open", tb.Bool(len(s.open) == 1))
					x.oblige("answers are read from the connection returned", tb.Bool(s.rd[connField(x, p, "r").(OpaqueVal).t] == id))
					return
				}
				x.oblige("no connection is returned with an error", x.isNil(res[0]))
				x.oblige("what was opened is closed when an error is returned", tb.Bool(len(s.open) == 0))
				answered(x, s, x.ghostData["starter"].(Value))
				if s.denied.typ != nil && s.n != 100 {
					x.oblige("access denied on a TLS or unix connection is followed by an attempt with the password in plain form", tb.Not(tb.And(x.secure(s, s.last), tb.Eq(errCode(x, s.denied), tb.BV(32, 1045)))))
				}
				x.oblige("an error is returned only when something failed", tb.Bool(s.failed && s.authed == nil))
			}}}
		}})
	regOptions(e)
}

// optState counts the options applied.
type optState struct {
	k      *Term
	obj    *Obj
	failed bool
}

func regOptions(e *Engine) {
	const pkg = "netx/connector."
	named := map[string][]string{"WithDatabase": {"database"}, "WithAuthentication": {"authentication"}, "WithUserPassword": {"userName", "password"}, "WithTLSConfig": {"tlsConfig"}}
	for name, fields := range named {
		e.add(&Contract{Key: pkg + name, Props: []string{"C19"}, Spec: func(c *Ctx) []Case {
			return []Case{{Res: []RSpec{RFn{Check: func(x *X, f FuncVal) {
				t := x.eng.namedType(modPrefix+"/netx/connector", "Connector")
				o := x.newObj('s', t, "connector")
				old := x.symVal(t, "connector").(StructVal)
				x.st.vals[o.id] = old
				r, ok := x.runFn(f, []Value{PtrVal{obj: o, typ: t}})
				if !ok {
					return
				}
				x.checkR(RNoErr{}, r, "error of the option")
				sv := x.st.vals[o.id].(StructVal)
			next:
				for _, l := range leaves(t) {
					was, is := x.walkPath(old, l.path), x.walkPath(sv, l.path)
					for j, fn := range fields {
						if samePath(x.eng.fieldOf(t, fn), l.path) {
							x.obligeSame("the option sets "+fn, c.args[j], is)
							continue next
						}
					}
					x.obligeSame("the option leaves "+l.name, was, is)
				}
			}}}}}
		}})
	}
	for m, f := range map[string]string{"UserName": "userName", "Password": "password", "Database": "database", "Network": "network", "String": "address"} {
		e.add(&Contract{Key: "(*netx/connector.Connector)." + m, Props: []string{"C19"}, Spec: func(c *Ctx) []Case {
			if p, ok := c.args[0].(PtrVal); !ok || p.obj == nil {
				return []Case{{Panic: true}}
			}
			return []Case{{Res: []RSpec{RVal{connField(c.x, c.args[0], f)}}}}
		}})
	}
	apply := &Contract{Key: "func:func(*netx/connector.Connector) error", Trusted: true, Why: "an option is arbitrary code that may fail", Spec: func(c *Ctx) []Case {
		x, tb := c.x, c.x.tb
		opts := x.ghostData["options"].(SliceVal)
		s := x.st.ghost["opt"].(optState)
		p := c.args[1].(PtrVal)
		x.oblige("no option is applied after one failed", tb.Bool(!s.failed))
		x.oblige("an option that was given", tb.Ult(s.k, opts.n))
		want, _ := x.elemAt(opts.obj, tb.Add(opts.off, s.k)).(FuncVal)
		got, _ := c.args[0].(FuncVal)
		x.oblige("options are applied in order", tb.Bool(want.term != nil && got.term != nil && x.sameT(want.term, got.term)))
		x.oblige("all options are applied to the same connector", tb.Bool(s.obj == nil || s.obj == p.obj))
		s.obj = p.obj
		s.k = tb.Add(s.k, x.c64(1))
		var err IfaceVal
		if x.choose(2) == 1 {
			err = x.freshErr("opterr")
			s.failed = true
			x.ghostData["opterr"] = err
		}
		x.st.ghost["opt"] = s
		return []Case{{Res: []RSpec{RVal{err}}}}
	}}
	e.add(&Contract{Key: pkg + "New", Props: []string{"C19"}, NonNilFuncs: true, Local: map[string]*Contract{apply.Key: apply},
		Begin: func(c *Ctx) {
			c.x.ghostData["options"] = c.S(2)
			c.x.st.ghost["opt"] = optState{k: c.x.c64(0)}
		},
		Ghost: &GhostLoop{
			Check: func(x *X) {
				s := x.st.ghost["opt"].(optState)
				x.oblige("loop invariant: no option failed", x.tb.Bool(!s.failed))
				x.oblige("loop invariant: no more options applied than given", x.tb.Ule(s.k, x.ghostData["options"].(SliceVal).n))
			},
			Head: func(x *X) {
				s := x.st.ghost["opt"].(optState)
				s.k = x.tb.Fresh("K", SBV(64))
				x.assume(x.tb.Ule(s.k, x.ghostData["options"].(SliceVal).n))
				x.st.ghost["opt"] = s
			},
			Phis: func(x *X, t types.Type, entry Value) []Value {
				k := x.st.ghost["opt"].(optState).k
				if w, _, ok := intInfo(t); ok && w == 64 {
					return []Value{k, x.tb.Sub(k, x.c64(1))}
				}
				if s, ok := entry.(SliceVal); ok && s.obj == x.ghostData["options"].(SliceVal).obj {
					s.off, s.n, s.cap = x.tb.Add(s.off, k), x.tb.Sub(s.n, k), x.tb.Sub(s.cap, k)
					return []Value{s}
				}
				return nil
			},
		},
		Spec: func(c *Ctx) []Case {
			opts := c.S(2)
			return []Case{{Post: func(x *X, res []Value) {
				tb := x.tb
				s := x.st.ghost["opt"].(optState)
				if s.failed {
					x.obligeSame("the error of the failed option is returned", x.ghostData["opterr"].(IfaceVal), res[1])
					return
				}
				x.oblige("no error is returned", x.isNil(res[1]))
				x.oblige("every option was applied", tb.Eq(s.k, opts.n))
				p, ok := res[0].(PtrVal)
				x.oblige("the connector the options were applied to is returned", tb.Bool(ok && p.obj != nil && (s.obj == nil || s.obj == p.obj)))
				if !ok || p.obj == nil {
					return
				}
				x.obligeSame("network of a new connector", c.args[0], connField(x, p, "network"))
				x.obligeSame("address of a new connector", c.args[1], connField(x, p, "address"))
				x.oblige("a new connector has a dialer", tb.Not(x.isNil(connField(x, p, "dialer"))))
				x.oblige("a new connector has an authentication mechanism", tb.Not(x.isNil(connField(x, p, "authentication"))))
			}}}
		}})
}
