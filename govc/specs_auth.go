package main

// Hash functions as uninterpreted functions of the bytes written, and the contracts of the
// authentication mechanisms.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type hashState struct {
	alg  string
	rope []Piece
}

type digestEntry struct {
	alg  string
	rope []Piece
	n    *Term
	out  []*Term
}

func digestSize(alg string) int {
	if alg == "sha1" {
		return 20
	}
	return 32
}

// snap is the content of v now; short content is expanded to its bytes.
func (x *X) snap(v Value) []Piece {
	n := x.contentLen(v)
	ps := x.content(v)
	if n.IsConst() && n.val.IsInt64() && n.val.Int64() <= 64 && len(ps) == 1 {
		var bs []*Term
		for i := int64(0); i < n.val.Int64(); i++ {
			bs = append(bs, x.withHyp(x.tb.True(), func() *Term { return ps[0].seq.At(x, x.c64(i)) }))
		}
		return []Piece{{seq: &BytesSeq{bs}, n: n, lab: "bytes"}}
	}
	return ps
}

// digest is the hash of the rope: the same bytes as an earlier one when the inputs are provably equal.
func (x *X) digest(alg string, rope []Piece) []*Term {
	tbl, _ := x.ghostData["digests"].([]digestEntry)
	n := x.ropeLen(rope)
	for _, d := range tbl {
		if d.alg != alg || x.decide(x.tb.Eq(d.n, n)) != 1 {
			continue
		}
		same := true
		for _, g := range x.ropeGoals(&RopeSeq{d.rope}, d.n, rope) {
			if x.decide(g.t) != 1 {
				same = false
				break
			}
		}
		if same {
			return d.out
		}
	}
	var out []*Term
	for i := 0; i < digestSize(alg); i++ {
		out = append(out, x.tb.App(alg, SBV(8), x.c64(int64(len(tbl))), x.c64(int64(i))))
	}
	x.ghostData["digests"] = append(tbl[:len(tbl):len(tbl)], digestEntry{alg, rope, n, out})
	return out
}

func (x *X) hashOf(v Value) (string, hashState) {
	k := fmt.Sprint("hash", v.(IfaceVal).term.id)
	h, ok := x.st.ghost[k].(hashState)
	if !ok {
		x.unsupported("a hash that was not made by a known constructor")
	}
	return k, h
}

func init() {
	why := "the digest is a function of the bytes written (nothing else is assumed about it)"
	for alg, key := range map[string]string{"sha1": "crypto/sha1.New", "sha256": "crypto/sha256.New"} {
		ext(key, why, func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
			h := IfaceVal{term: x.tb.Fresh("hash", SIface)}
			x.assume(x.tb.Not(x.isNil(h)))
			x.st.ghost[fmt.Sprint("hash", h.term.id)] = hashState{alg: alg}
			return h
		})
	}
	for alg, key := range map[string]string{"sha1": "crypto/sha1.Sum", "sha256": "crypto/sha256.Sum256"} {
		ext(key, why, func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
			return BArrVal{&BytesSeq{x.digest(alg, x.snap(args[0]))}, int64(digestSize(alg))}
		})
	}
	ext("iface:hash.Hash.Write", why, func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		k, h := x.hashOf(args[0])
		x.st.ghost[k] = hashState{h.alg, cat(h.rope, x.snap(args[1]))}
		return TupleVal{args[1].(SliceVal).n, IfaceVal{}}
	})
	ext("io.WriteString", "writes the string's bytes (to a hash)", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		k, h := x.hashOf(args[0])
		x.st.ghost[k] = hashState{h.alg, cat(h.rope, x.snap(args[1]))}
		return TupleVal{args[1].(StrVal).n, IfaceVal{}}
	})
	ext("iface:hash.Hash.Sum", why+"; appends it", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		_, h := x.hashOf(args[0])
		d := x.digest(h.alg, h.rope)
		return x.appendBytes(args[1].(SliceVal), &BytesSeq{d}, x.c64(int64(len(d))), x.pos2(in))
	})
	ext("iface:hash.Hash.Reset", "forgets the bytes written", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		k, h := x.hashOf(args[0])
		x.st.ghost[k] = hashState{alg: h.alg}
		return nil
	})
	ext("iface:hash.Hash.Size", "digest size", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		_, h := x.hashOf(args[0])
		return x.c64(int64(digestSize(h.alg)))
	})
	ext("crypto/subtle.XORBytes", "bytewise exclusive or of equally long inputs", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		dst, a, b := args[0].(SliceVal), x.snap(args[1]), x.snap(args[2])
		n := args[1].(SliceVal).n
		if n != args[2].(SliceVal).n || !n.IsConst() || len(a) != 1 || len(b) != 1 {
			x.unsupported("XORBytes outside its model")
		}
		x.oblige("XORBytes: dst is long enough "+x.pos2(in), x.tb.Ule(n, dst.n))
		var bs []*Term
		for i := int64(0); i < n.val.Int64(); i++ {
			bs = append(bs, x.tb.BVBin("bvxor", a[0].seq.At(x, x.c64(i)), b[0].seq.At(x, x.c64(i))))
		}
		if len(bs) > 0 {
			x.writeBytes(dst.obj, dst.off, n, &BytesSeq{bs}, "XORBytes "+x.pos2(in))
		}
		return n
	})
	for _, m := range []string{"UserName", "Password", "Database"} {
		ext("iface:netx/connector/authentication.Credentials."+m, "credentials do not change while a message is built", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
			return x.credential(m, args[0])
		})
	}
}

func (x *X) credential(m string, c Value) StrVal {
	t := c.(IfaceVal).term
	return StrVal{seq: &SymSeq{"at_cred_" + m, []*Term{t}}, n: x.tb.App("len_cred_"+m, SBV(64), t)}
}

func (x *X) xorB(a, b []*Term) []*Term {
	var out []*Term
	for i := range a {
		out = append(out, x.tb.BVBin("bvxor", a[i], b[i]))
	}
	return out
}

func (x *X) bytesOf(bs []*Term) []Piece {
	return []Piece{{seq: &BytesSeq{bs}, n: x.c64(int64(len(bs))), lab: "digest"}}
}

func (x *X) hexOf(bs []*Term) []Piece {
	t := &ConstSeq{"0123456789abcdef"}
	var out []*Term
	for _, b := range bs {
		out = append(out, t.At(x, x.tb.Zext(64, x.tb.BVBin("bvlshr", b, x.tb.BV(8, 4)))), t.At(x, x.tb.Zext(64, x.tb.BVBin("bvand", b, x.tb.BV(8, 15)))))
	}
	return []Piece{{seq: &BytesSeq{out}, n: x.c64(int64(len(out))), lab: "hex"}}
}

func regAuth(e *Engine) {
	const dir = "netx/connector/authentication/"
	key := func(pkg, m string) string { return "(" + dir + pkg + ".auth)." + m }
	add := func(pkg, m string, rope func(x *X, c *Ctx, who []Piece, pw StrVal) []Piece) {
		e.add(&Contract{Key: key(pkg, m), Props: []string{"C18"}, Pre: func(c *Ctx) []*Term { return []*Term{c.x.tb.Not(c.x.isNil(c.args[2]))} },
			Spec: func(c *Ctx) []Case {
				x := c.x
				who := cat(x.content(x.credential("Database", c.args[2])), x.by(0), x.content(x.credential("UserName", c.args[2])), x.by(0))
				return []Case{{Res: []RSpec{RBuf{rope(x, c, who, x.credential("Password", c.args[2]))}}}}
			}})
	}
	start := func(mech string) func(x *X, c *Ctx, who []Piece, pw StrVal) []Piece {
		return func(x *X, c *Ctx, who []Piece, pw StrVal) []Piece {
			return x.frame(msgAuthStart, x.fld(1, x.lit(mech)))
		}
	}
	add("mysql41", "Start", start("MYSQL41"))
	add("sha256", "Start", start("SHA256_MEMORY"))
	add("plain", "Start", func(x *X, c *Ctx, who []Piece, pw StrVal) []Piece {
		return x.frame(msgAuthStart, x.fld(1, x.lit("PLAIN")), x.fld(2, who, x.content(pw)))
	})
	add("mysql41", "Continue", func(x *X, c *Ctx, who []Piece, pw StrVal) []Piece {
		if !x.branch(x.tb.Ne(pw.n, x.c64(0))) {
			return x.authCont(who)
		}
		h1 := x.digest("sha1", x.snap(pw))
		h2 := x.digest("sha1", x.bytesOf(h1))
		h3 := x.digest("sha1", cat(x.snap(c.args[3]), x.bytesOf(h2)))
		return x.authCont(cat(who, x.lit("*"), x.hexOf(x.xorB(h1, h3))))
	})
	add("sha256", "Continue", func(x *X, c *Ctx, who []Piece, pw StrVal) []Piece {
		h1 := x.digest("sha256", x.snap(pw))
		h2 := x.digest("sha256", x.bytesOf(h1))
		h3 := x.digest("sha256", cat(x.bytesOf(h2), x.snap(c.args[3])))
		return x.authCont(cat(who, x.hexOf(x.xorB(h1, h3))))
	})
}
