//go:build go1.22

package xproto

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/golang/protobuf/proto"

	"github.com/renthraysk/xtorm/protobuf/mysqlx_connection"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_expect"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_session"
	z "github.com/renthraysk/xtorm/zzverif"
)

// oneFrame expects exactly one message of a type.
func oneFrame(t *testing.T, what string, out []byte, typ byte, got, want proto.Message) {
	t.Helper()
	fs, err := z.Frames(out)
	if err != nil || len(fs) != 1 || fs[0].Type != typ {
		z.Fail(t, "%s does not give exactly one message of type %d (%d messages, %v, % x...)", what, typ, len(fs), err, out[:min(len(out), 12)])
	}
	if err := z.Same(fs[0].Body, got, want); err != nil {
		z.Fail(t, "%s: %v", what, err)
	}
}

func TestC12(t *testing.T) {
	want := func(key uint32, v string) *mysqlx_expect.Open_Condition {
		return &mysqlx_expect.Open_Condition{ConditionKey: &key, ConditionValue: []byte(v)}
	}
	i := 0
	one := func(what string, c OpenCondition, w *mysqlx_expect.Open_Condition) {
		i++
		p := z.Buf(i)
		keep := string(p)
		z.Guard(t, func() string { return what }, func() {
			out := c(p)
			if !z.Kept([]byte(keep), out) || string(p) != keep {
				z.Fail(t, "%s changes bytes already in the buffer", what)
			}
			body, err := z.Field(out[len(keep):], 2)
			if err != nil {
				z.Fail(t, "%s: %v", what, err)
			}
			if err := z.Same(body, &mysqlx_expect.Open_Condition{}, w); err != nil {
				z.Fail(t, "%s: %v", what, err)
			}
		})
		for op := OpenCtxOperation(0); op < 2; op++ {
			p := z.Buf(i)
			keep := string(p)
			z.Guard(t, func() string { return "ExpectOpen with " + what }, func() {
				out := ExpectOpen(p, op, c, OpenConditionExpectNoError(false), c)
				if !z.Kept([]byte(keep), out) {
					z.Fail(t, "ExpectOpen changes bytes already in the buffer")
				}
				o := mysqlx_expect.Open_CtxOperation(op)
				oneFrame(t, "ExpectOpen with "+what, out[len(keep):], 24, &mysqlx_expect.Open{}, &mysqlx_expect.Open{Op: &o, Cond: []*mysqlx_expect.Open_Condition{w, want(1, "0"), w}})
			})
		}
	}
	one("OpenConditionExpectNoError(true)", OpenConditionExpectNoError(true), want(1, "1"))
	one("OpenConditionExpectNoError(false)", OpenConditionExpectNoError(false), want(1, "0"))
	for _, n := range z.Lens() {
		one(fmt.Sprintf("OpenConditionExpectFieldExists(name of length %d)", n), OpenConditionExpectFieldExists(z.Text(n)), want(2, z.Text(n)))
	}
	for j := 0; j < 6; j++ {
		p := z.Buf(j)
		out := ExpectClose(p)
		if !z.Kept(p, out) {
			z.Fail(t, "ExpectClose changes bytes already in the buffer")
		}
		oneFrame(t, "ExpectClose", out[len(p):], 25, &mysqlx_expect.Close{}, &mysqlx_expect.Close{})
		o := mysqlx_expect.Open_CtxOperation(1)
		out = ExpectOpen(p, 1)
		oneFrame(t, "ExpectOpen without conditions", out[len(p):], 24, &mysqlx_expect.Open{}, &mysqlx_expect.Open{Op: &o})
	}
}

func TestC24(t *testing.T) {
	for j := 0; j < 6; j++ {
		for _, k := range []bool{true, false} {
			p := z.Buf(j)
			keep := string(p)
			out := Reset(p, k)
			if !z.Kept([]byte(keep), out) {
				z.Fail(t, "Reset changes bytes already in the buffer")
			}
			w := &mysqlx_session.Reset{}
			if k {
				w.KeepOpen = &k
			}
			oneFrame(t, fmt.Sprintf("Reset(%v)", k), out[len(keep):], 6, &mysqlx_session.Reset{}, w)
		}
	}
	for i, n := range z.Lens() {
		s := z.Text(n)
		what := func(k string) string { return fmt.Sprintf("%s (length %d)", k, n) }
		for _, on := range []bool{true, false} {
			if n > 3000 && on {
				continue
			}
			z.Guard(t, func() string { return what("CapabilitySet") }, func() {
				out, err := CapabilitySet(s, on)
				if err != nil {
					z.Fail(t, "%s fails: %v", what("CapabilitySet"), err)
				}
				oneFrame(t, what("CapabilitySet"), out, 2, &mysqlx_connection.CapabilitiesSet{}, &mysqlx_connection.CapabilitiesSet{
					Capabilities: &mysqlx_connection.Capabilities{Capabilities: []*mysqlx_connection.Capability{{Name: &s, Value: z.WantAny(on)}}}})
			})
		}
		z.Guard(t, func() string { return what("AuthenticateStart") }, func() {
			p := z.Buf(i)
			keep := string(p)
			out := AuthenticateStart(p, "MYSQL41", []byte(s))
			w := &mysqlx_session.AuthenticateStart{MechName: proto.String("MYSQL41")}
			if len(s) > 0 {
				w.AuthData = []byte(s)
			}
			if string(p) != keep {
				z.Fail(t, "AuthenticateStart changes its buffer")
			}
			oneFrame(t, what("AuthenticateStart, data"), out, 4, &mysqlx_session.AuthenticateStart{}, w)
			out = AuthenticateStart(p, s, []byte("x"))
			oneFrame(t, what("AuthenticateStart, name"), out, 4, &mysqlx_session.AuthenticateStart{}, &mysqlx_session.AuthenticateStart{MechName: &s, AuthData: []byte("x")})
			out = AuthenticateStart(p, s, nil)
			oneFrame(t, what("AuthenticateStart, no data"), out, 4, &mysqlx_session.AuthenticateStart{}, &mysqlx_session.AuthenticateStart{MechName: &s})
			out = AuthenticateContinue(p, []byte(s))
			oneFrame(t, what("AuthenticateContinue"), out, 5, &mysqlx_session.AuthenticateContinue{}, &mysqlx_session.AuthenticateContinue{AuthData: []byte(s)})
			if string(p) != keep {
				z.Fail(t, "AuthenticateContinue changes its buffer")
			}
		})
	}
	_ = bytes.Equal
}
