//go:build go1.22

package xtorm

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_expr"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_sql"
	"github.com/renthraysk/xtorm/xproto"
	z "github.com/renthraysk/xtorm/zzverif"
)

// ops are builder operations, by whether they succeed.
func ops(n int) (good, failing map[string]func(b *Builder)) {
	s := z.Text(n)
	good = map[string]func(b *Builder){
		"StmtExecute": func(b *Builder) { b.StmtExecute(s, 1, "x") },
		"Prepare":     func(b *Builder) { b.Prepare(uint32(n), s) },
		"Execute":     func(b *Builder) { b.Execute(uint32(n), s) },
		"Deallocate":  func(b *Builder) { b.Deallocate(uint32(n)) },
		"Insert":      func(b *Builder) { b.Insert("t", []string{"a"}, [][]any{{1}, {s}}) },
		"InsertRow":   func(b *Builder) { b.InsertRow("t", []string{"a"}, []any{s}) },
		"InsertF":     func(b *Builder) { b.InsertF("t", []string{"a"}, func(i *Insert) error { i.RowV(s); return nil }) },
		"Update":      func(b *Builder) { b.Update("t", Eq(1, 1), map[string]any{"a": s}) },
		"UpdateF":     func(b *Builder) { b.UpdateF("t", Eq(1, 1), func(u *Update) error { u.Set("a", s); return nil }) },
		"Delete":      func(b *Builder) { b.Delete("t", Eq(1, s)) },
		"Tx": func(b *Builder) {
			b.Tx(IsolationLevelSerializable, func(b *Builder) error { b.StmtExecute(s); return nil })
		},
		"ExpectFailOnError": func(b *Builder) {
			b.ExpectFailOnError(OpenExpectCtxEmpty, func(b *Builder) error { b.StmtExecute(s); return nil })
		},
	}
	for k, v := range map[string]func(b *Builder){
		"StmtExecute of nothing": func(b *Builder) { b.StmtExecute("") },
		"StmtExecute of NULLs":   func(b *Builder) { b.StmtExecute(s, nil, []byte(nil), (*int)(nil), []byte{}, "", 0) },
		"Prepare of nothing":     func(b *Builder) { b.Prepare(0, "") },
		"Execute of nothing":     func(b *Builder) { b.Execute(0) },
		"Execute of NULLs":       func(b *Builder) { b.Execute(1<<32-1, nil, []byte(nil), (*int)(nil), []byte{}, "", 0) },
		"Deallocate(0)":          func(b *Builder) { b.Deallocate(0) },
		"Deallocate(top)":        func(b *Builder) { b.Deallocate(1<<32 - 1) },
		"Insert of no rows":      func(b *Builder) { b.Insert("t", []string{"a"}, nil) },
		"Insert without columns": func(b *Builder) { b.Insert("", nil, [][]any{{}, nil}) },
		"InsertRow of nothing":   func(b *Builder) { b.InsertRow("", nil, nil) },
		"InsertF of no rows":     func(b *Builder) { b.InsertF("", nil, func(i *Insert) error { return nil }) },
		"InsertF of empty rows": func(b *Builder) {
			b.InsertF("t", nil, func(i *Insert) error { i.RowV(); i.Row(nil); i.RowV(nil); return nil })
		},
		"Update of nothing":        func(b *Builder) { b.Update("", nil, nil) },
		"Update of an empty name":  func(b *Builder) { b.Update("t", nil, map[string]any{"": nil}) },
		"UpdateF of nothing":       func(b *Builder) { b.UpdateF("", nil, func(u *Update) error { return nil }) },
		"UpdateF of an empty name": func(b *Builder) { b.UpdateF("t", nil, func(u *Update) error { u.Set("", nil); return nil }) },
		"Delete of everything":     func(b *Builder) { b.Delete("", nil) },
		"empty Tx":                 func(b *Builder) { b.Tx(IsolationLevelDefault, func(b *Builder) error { return nil }) },
		"empty Tx with level":      func(b *Builder) { b.Tx(IsolationLevelReadCommitted, func(b *Builder) error { return nil }) },
		"empty Tx with snapshot":   func(b *Builder) { b.Tx(IsolationLevelSnapshot, func(b *Builder) error { return nil }) },
		"empty ExpectFailOnError":  func(b *Builder) { b.ExpectFailOnError(OpenExpectCtxCopyPrev, func(b *Builder) error { return nil }) },
		"ExpectFailOnError in itself": func(b *Builder) {
			b.ExpectFailOnError(OpenExpectCtxCopyPrev, func(b *Builder) error {
				b.ExpectFailOnError(OpenExpectCtxEmpty, func(b *Builder) error { b.Delete("t", nil); return nil })
				return nil
			})
		},
	} {
		good[k] = v
	}
	failing = map[string]func(b *Builder){}
	for k, v := range badValues() {
		v := v
		d := fmt.Sprintf(" with %s", z.Clip(v))
		if k < 3 {
			failing["StmtExecute"+d] = func(b *Builder) { b.StmtExecute(s, 1, v) }
			failing["Execute"+d] = func(b *Builder) { b.Execute(1, v) }
		}
		failing["Insert"+d] = func(b *Builder) { b.Insert("t", []string{"a"}, [][]any{{1}, {v}, {2}}) }
		failing["InsertRow"+d] = func(b *Builder) { b.InsertRow("t", []string{"a"}, []any{v}) }
		failing["InsertF"+d] = func(b *Builder) {
			b.InsertF("t", []string{"a"}, func(i *Insert) error {
				i.RowV(1)
				i.RowV(v)
				i.RowV()
				i.Row(nil)
				i.RowV(2)
				return nil
			})
		}
		failing["Update"+d] = func(b *Builder) { b.Update("t", nil, map[string]any{"a": v}) }
		failing["UpdateF"+d] = func(b *Builder) {
			b.UpdateF("t", nil, func(u *Update) error { u.Set("a", v); u.Set("", nil); u.Set("b", 1); return nil })
		}
		failing["Update, criteria"+d] = func(b *Builder) { b.Update("t", Eq(v, 1), map[string]any{"a": 1}) }
		failing["UpdateF, criteria"+d] = func(b *Builder) { b.UpdateF("t", Eq(v, 1), func(u *Update) error { u.Set("b", 1); return nil }) }
		failing["Delete"+d] = func(b *Builder) { b.Delete("t", Eq(1, v)) }
		failing["Tx"+d] = func(b *Builder) {
			b.Tx(IsolationLevelDefault, func(b *Builder) error { b.Insert("t", []string{"a"}, [][]any{{v}}); b.StmtExecute("x"); return nil })
		}
		failing["ExpectFailOnError"+d] = func(b *Builder) {
			b.ExpectFailOnError(OpenExpectCtxEmpty, func(b *Builder) error { b.Delete("t", Eq(1, v)); b.StmtExecute("x"); return nil })
		}
	}
	failing["Insert with a short row"] = func(b *Builder) { b.Insert("t", []string{"a", "b"}, [][]any{{1, 2}, {1}}) }
	failing["Delete with failing criteria"] = func(b *Builder) { b.Delete("t", failExpr) }
	failing["Update with failing criteria"] = func(b *Builder) { b.Update("t", failExpr, nil) }
	failing["Tx with an unknown level"] = func(b *Builder) { b.Tx(99, func(b *Builder) error { return nil }) }
	failing["Tx whose callback fails"] = func(b *Builder) { b.Tx(0, func(b *Builder) error { b.StmtExecute("a"); return errCB }) }
	failing["ExpectFailOnError whose callback fails"] = func(b *Builder) {
		b.ExpectFailOnError(0, func(b *Builder) error { b.StmtExecute("a"); return errCB })
	}
	failing["InsertF whose callback fails"] = func(b *Builder) { b.InsertF("t", nil, func(i *Insert) error { return errCB }) }
	failing["UpdateF whose callback fails"] = func(b *Builder) { b.UpdateF("t", nil, func(i *Update) error { return errCB }) }
	return
}

var errCB = errors.New("callback failed")

func TestC10(t *testing.T) {
	for k, n := range z.SmallLens() {
		good, failing := ops(n)
		for name, op := range good {
			x, before := newBuilder(k)
			desc := func() string {
				return fmt.Sprintf("%s(text of length %d) on a builder holding %d bytes", name, n, len(before))
			}
			z.Guard(t, desc, func() {
				op(&x.Builder)
				if x.Builder.err != nil {
					z.Fail(t, "%s fails: %v", desc(), x.Builder.err)
				}
				if !z.Kept(before, x.Builder.buf) {
					z.Fail(t, "%s changes bytes already built", desc())
				}
				fs, err := z.Frames(x.Builder.buf)
				if err != nil {
					z.Fail(t, "%s: %v", desc(), err)
				}
				for _, f := range fs {
					if !bodyOK(f) {
						z.Fail(t, "%s: a message of type %d does not decode", desc(), f.Type)
					}
				}
			})
		}
		if k%40 != 0 {
			continue
		}
		for name, op := range failing {
			for j := 0; j < 5; j++ {
				x, _ := newBuilder(j)
				z.Guard(t, func() string { return fmt.Sprintf("%s (text of length %d)", name, n) }, func() { op(&x.Builder); op(&x.Builder) })
			}
		}
	}
	// expectation blocks and transactions of several sizes, nested
	for d := 0; d < 12; d++ {
		var rec func(b *Builder, d int) error
		rec = func(b *Builder, d int) error {
			b.StmtExecute(z.Text(d*40), d)
			if d > 0 {
				b.Tx(IsolationLevel(d%6), func(b *Builder) error { return rec(b, d-1) })
				b.ExpectFailOnError(OpenContext(d%2), func(b *Builder) error { b.InsertRow("t", []string{"a"}, []any{d}); return nil })
			}
			return nil
		}
		x, _ := newBuilder(d)
		z.Guard(t, func() string { return "nested transactions" }, func() {
			rec(&x.Builder, d)
			if _, err := z.Frames(x.Builder.buf); err != nil {
				z.Fail(t, "nested transactions of depth %d: %v", d, err)
			}
		})
	}
}

func bodyOK(f z.Frame) bool {
	switch f.Type {
	case 12:
		return proto.Unmarshal(f.Body, &mysqlx_sql.StmtExecute{}) == nil
	case 18:
		return proto.Unmarshal(f.Body, &mysqlx_crud.Insert{}) == nil
	case 19:
		return proto.Unmarshal(f.Body, &mysqlx_crud.Update{}) == nil
	case 20:
		return proto.Unmarshal(f.Body, &mysqlx_crud.Delete{}) == nil
	}
	return true
}

func TestC11(t *testing.T) {
	iso := []string{"", "READ UNCOMMITTED", "READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE", ""}
	lv := []IsolationLevel{IsolationLevelDefault, IsolationLevelReadUncommitted, IsolationLevelReadCommitted, IsolationLevelRepeatableRead, IsolationLevelSerializable, IsolationLevelSnapshot}
	txf := func(k int, in ...frame) []frame {
		var fs []frame
		if iso[k] != "" {
			fs = append(fs, fStmt("SET TRANSACTION ISOLATION LEVEL "+iso[k]))
		}
		start := "START TRANSACTION"
		if k == 5 {
			start += " WITH CONSISTENT SNAPSHOT"
		}
		return append(append(append(fs, fStmt(start)), in...), fStmt("COMMIT"))
	}
	for k := range iso {
		for i := 0; i < 15; i++ {
			d := fmt.Sprintf("Tx(level %d)", k)
			builds(t, i, d+" with an empty callback", func(b *Builder) { b.Tx(lv[k], func(b *Builder) error { return nil }) }, txf(k)...)
			calls := 0
			builds(t, i, d, func(b *Builder) {
				b.Tx(lv[k], func(b *Builder) error { calls++; b.StmtExecute("a", i); b.Deallocate(7); return nil })
			}, txf(k, fStmt("a", i), fDealloc(7))...)
			if calls != 1 {
				z.Fail(t, "%s calls its callback %d times", d, calls)
			}
			builds(t, i, d+" nested, then another", func(b *Builder) {
				b.Tx(lv[k], func(b *Builder) error {
					b.Tx(lv[(k+1)%6], func(b *Builder) error { b.StmtExecute(z.Text(200)); return nil })
					return nil
				})
				b.Tx(lv[k], func(b *Builder) error { return nil })
			}, append(txf(k, txf((k+1)%6, fStmt(z.Text(200)))...), txf(k)...)...)
			fails(t, i, d+" whose callback fails", func(b *Builder) { b.Tx(lv[k], func(b *Builder) error { b.StmtExecute("a"); return errCB }) })
			fails(t, i, d+" whose callback fails inside another", func(b *Builder) {
				b.Tx(lv[k], func(b *Builder) error { b.Tx(0, func(b *Builder) error { return errCB }); return nil })
			})
			fails(t, i, d+" with work that fails", func(b *Builder) {
				b.Tx(lv[k], func(b *Builder) error { b.StmtExecute("a", bad{}); b.StmtExecute("b"); return nil })
			})
			fails(t, i, d+" with work that fails and a callback that fails", func(b *Builder) {
				b.Tx(lv[k], func(b *Builder) error { b.StmtExecute("a", bad{}); return errCB })
			})
		}
	}
	for _, l := range []IsolationLevel{6, 7, 100, 255, 256, 1 << 32, ^IsolationLevel(0)} {
		fails(t, 1, fmt.Sprintf("Tx(level %d)", l), func(b *Builder) { b.Tx(l, func(b *Builder) error { return nil }) })
	}
}

func TestC12(t *testing.T) {
	for _, c := range []OpenContext{OpenExpectCtxCopyPrev, OpenExpectCtxEmpty} {
		for i := 0; i < 15; i++ {
			d := fmt.Sprintf("ExpectFailOnError(%d)", c)
			builds(t, i, d+" with an empty callback", func(b *Builder) { b.ExpectFailOnError(c, func(b *Builder) error { return nil }) }, fOpen(byte(c)), fClose())
			calls := 0
			builds(t, i, d, func(b *Builder) {
				b.ExpectFailOnError(c, func(b *Builder) error {
					calls++
					b.StmtExecute(z.Text(i*30), i)
					b.ExpectFailOnError(1-c, func(b *Builder) error { b.Deallocate(7); return nil })
					b.StmtExecute("y")
					return nil
				})
			}, fOpen(byte(c)), fStmt(z.Text(i*30), i), fOpen(byte(1-c)), fDealloc(7), fClose(), fStmt("y"), fClose())
			if calls != 1 {
				z.Fail(t, "%s calls its callback %d times", d, calls)
			}
			fails(t, i, d+" whose callback fails", func(b *Builder) { b.ExpectFailOnError(c, func(b *Builder) error { b.StmtExecute("a"); return errCB }) })
			fails(t, i, d+" with work that fails", func(b *Builder) {
				b.ExpectFailOnError(c, func(b *Builder) error { b.StmtExecute("a", bad{}); return nil })
			})
		}
	}
}

type sender struct {
	calls int
	got   []byte
	ctx   context.Context
	res   []netx.Response
	err   error
}

func (s *sender) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s.calls++
	s.got = append([]byte{}, b...)
	s.ctx = ctx
	return s.res, s.err
}

type ctxKey struct{}

func TestC13(t *testing.T) {
	ctx := context.WithValue(context.Background(), ctxKey{}, 1)
	good, failing := ops(20)
	sendOK := func(what string, x *XPipe, want []byte) {
		t.Helper()
		for _, e := range []error{nil, errors.New("network")} {
			s := &sender{res: []netx.Response{"r1", "r2"}, err: e}
			r, err := x.Send(ctx, s)
			if s.calls != 1 || !bytes.Equal(s.got, want) || s.ctx != ctx {
				z.Fail(t, "after %s: Send calls the sender %d times, with %d bytes where %d were built", what, s.calls, len(s.got), len(want))
			}
			if err != e || len(r) != 2 || r[0] != "r1" || r[1] != "r2" {
				z.Fail(t, "after %s: Send does not return the sender's answer", what)
			}
		}
	}
	for i := 0; i < 10; i++ {
		x0, _ := newBuilder(i)
		z.Guard(t, func() string { return "Send" }, func() { sendOK("nothing", x0, append([]byte{}, x0.Builder.buf...)) })
		for name, op := range good {
			x, _ := newBuilder(i)
			z.Guard(t, func() string { return name }, func() {
				op(&x.Builder)
				sendOK(name, x, x.Builder.buf)
			})
		}
		for name, op := range failing {
			x, _ := newBuilder(i)
			z.Guard(t, func() string { return name }, func() {
				op(&x.Builder)
				first := x.Builder.err
				if first == nil {
					z.Fail(t, "%s is not recorded as a failure", name)
				}
				if strings.Contains(name, "whose callback fails") && !errors.Is(first, errCB) {
					z.Fail(t, "%s: the error is %v", name, first)
				}
				chk := func(what string) {
					if x.Builder.err != first {
						z.Fail(t, "after %s, %s: the error is %v, it was %v", name, what, x.Builder.err, first)
					}
					s := &sender{}
					if _, err := x.Send(ctx, s); s.calls != 0 || err != first {
						z.Fail(t, "after %s, %s: Send calls the sender %d times and returns %v, expected %v", name, what, s.calls, err, first)
					}
				}
				chk("nothing else")
				for n2, op2 := range good {
					op2(&x.Builder)
					chk(n2)
				}
				for n2, op2 := range failing {
					op2(&x.Builder)
					chk(n2)
				}
				x.Reset()
				if x.Builder.err != nil || len(x.Builder.buf) != 0 {
					z.Fail(t, "after %s, Reset leaves %d bytes and error %v", name, len(x.Builder.buf), x.Builder.err)
				}
				x.StmtExecute("again", 1)
				if err := same(nil, x.Builder.buf, []frame{fStmt("again", 1)}); err != nil || x.Builder.err != nil {
					z.Fail(t, "after %s and Reset: %v %v", name, err, x.Builder.err)
				}
				sendOK("reset", x, x.Builder.buf)
			})
		}
	}
	// large units
	for _, n := range []int{1 << 16, 1<<20 + 1, 3 << 20, 1<<24 + 5} {
		for name, op := range failing {
			x := New(0)
			z.Guard(t, func() string { return name }, func() {
				x.StmtExecute(z.Text(n))
				sendOK(fmt.Sprintf("a statement of length %d", n), x, x.Builder.buf)
				op(&x.Builder)
				s := &sender{}
				if _, err := x.Send(ctx, s); x.Builder.err == nil || s.calls != 0 || err != x.Builder.err {
					z.Fail(t, "after a statement of length %d and %s: Send calls the sender %d times and returns %v", n, name, s.calls, err)
				}
				x.Reset()
				x.StmtExecute("again", 1)
				if err := same(nil, x.Builder.buf, []frame{fStmt("again", 1)}); err != nil || x.Builder.err != nil {
					z.Fail(t, "after a statement of length %d, %s and Reset: %v %v", n, name, err, x.Builder.err)
				}
				sendOK("reset", x, x.Builder.buf)
			})
			if n > 1<<20 {
				break
			}
		}
	}
	// nested failures
	for name, op := range failing {
		for name2, op2 := range good {
			x, _ := newBuilder(1)
			var inner error
			x.Tx(IsolationLevelDefault, func(b *Builder) error {
				b.ExpectFailOnError(0, func(b *Builder) error {
					op(b)
					inner = b.err
					op2(b)
					return errors.New("later")
				})
				op2(b)
				return nil
			})
			if inner == nil || x.Builder.err != inner {
				z.Fail(t, "%s inside two blocks, then %s: the error is %v, it was %v", name, name2, x.Builder.err, inner)
			}
		}
	}
	// the children of InsertF and UpdateF
	x, _ := newBuilder(1)
	var e1 error
	x.InsertF("t", nil, func(i *Insert) error {
		i.RowV(bad{})
		e1 = i.err
		i.RowV()
		i.Row([]any{})
		i.RowV(1)
		i.Row([]any{failing2{}})
		return errCB
	})
	if e1 == nil || x.Builder.err != e1 {
		z.Fail(t, "InsertF: the error is %v, the first one was %v", x.Builder.err, e1)
	}
	x, _ = newBuilder(1)
	x.UpdateF("t", nil, func(u *Update) error {
		u.Set("a", bad{})
		e1 = u.err
		u.Set("", nil)
		u.Set("b", 1)
		u.Set("c", failing2{})
		return errCB
	})
	if e1 == nil || x.Builder.err != e1 {
		z.Fail(t, "UpdateF: the error is %v, the first one was %v", x.Builder.err, e1)
	}
}

type failing2 struct{}

func panics(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

func TestC14(t *testing.T) {
	good, failing := ops(10)
	outer := func(what string, run func(x *XPipe, cb func())) {
		for i := 0; i < 6; i++ {
			x, before := newBuilder(i)
			ran := 0
			z.Guard(t, func() string { return what }, func() {
				run(x, func() {
					ran++
					snap := x.Builder
					content := append([]byte{}, x.Builder.buf...)
					chk := func(name string, f func()) {
						if panics(f) == nil {
							z.Fail(t, "%s: while its callback runs, %s on the enclosing builder does not panic", what, name)
						}
						if !bytes.Equal(x.Builder.buf, content) || x.Builder.err != snap.err || x.Builder.disabled != snap.disabled {
							z.Fail(t, "%s: while its callback runs, %s on the enclosing builder changes it", what, name)
						}
					}
					for n, op := range good {
						chk(n, func() { op(&x.Builder) })
					}
					for n, op := range failing {
						chk(n, func() { op(&x.Builder) })
					}
					chk("Reset", x.Reset)
					chk("Send", func() { x.Send(context.Background(), &sender{}) })
				})
				if ran != 1 {
					z.Fail(t, "%s runs its callback %d times", what, ran)
				}
				if x.Builder.disabled {
					z.Fail(t, "%s leaves the builder locked", what)
				}
				if x.Builder.err == nil && !z.Kept(before, x.Builder.buf) {
					z.Fail(t, "%s changes what was built before", what)
				}
				x.Builder.err = nil
				n := len(x.Builder.buf)
				if panics(func() { x.StmtExecute("after") }) != nil || len(x.Builder.buf) <= n {
					z.Fail(t, "after %s the builder does not accept work", what)
				}
			})
		}
	}
	marker := "marker-text-of-the-callback"
	has := func(what string, b *Builder) {
		if b.err == nil && !bytes.Contains(b.buf, []byte(marker)) {
			z.Fail(t, "%s: what its callback built is missing", what)
		}
	}
	for _, ret := range []error{nil, errCB} {
		d := fmt.Sprintf(" (callback returns %v)", ret)
		child := func(what string, cb func(), enclosing *Builder) func(b *Builder) error {
			return func(b *Builder) error {
				if b == enclosing {
					z.Fail(t, "%s hands its callback the enclosing builder", what)
				}
				cb()
				n := len(b.buf)
				if panics(func() { b.StmtExecute(marker) }) != nil || len(b.buf) <= n {
					z.Fail(t, "%s: the callback's builder does not accept work", what)
				}
				cbGood, _ := ops(3)
				for n2, op := range cbGood {
					if r := panics(func() { op(b) }); r != nil || b.err != nil {
						z.Fail(t, "%s: the callback's builder does not accept %s: %v", what, n2, r)
					}
				}
				return ret
			}
		}
		for l := IsolationLevel(0); l < 6; l++ {
			what := fmt.Sprintf("Tx(%d)", l) + d
			outer(what, func(x *XPipe, cb func()) { x.Tx(l, child(what, cb, &x.Builder)); has(what, &x.Builder) })
		}
		what := "ExpectFailOnError" + d
		outer(what, func(x *XPipe, cb func()) { x.ExpectFailOnError(1, child(what, cb, &x.Builder)); has(what, &x.Builder) })
		what2 := "InsertF" + d
		outer(what2, func(x *XPipe, cb func()) {
			x.InsertF("t", []string{"a"}, func(i *Insert) error { cb(); i.RowV(marker); return ret })
			has(what2, &x.Builder)
		})
		what3 := "UpdateF" + d
		outer(what3, func(x *XPipe, cb func()) {
			x.UpdateF("t", nil, func(u *Update) error { cb(); u.Set("a", marker); return ret })
			has(what3, &x.Builder)
		})
		// two levels
		what4 := "Tx in ExpectFailOnError" + d
		outer(what4, func(x *XPipe, cb func()) {
			x.ExpectFailOnError(0, func(mid *Builder) error {
				mid.Tx(0, child(what4, func() {
					cb()
					for n, op := range good {
						if panics(func() { op(mid) }) == nil {
							z.Fail(t, "%s: %s on the middle builder does not panic", what4, n)
						}
					}
				}, mid))
				if mid.disabled {
					z.Fail(t, "%s: the middle builder stays locked", what4)
				}
				return nil
			})
			has(what4, &x.Builder)
		})
	}
}

func TestC15(t *testing.T) {
	seen := map[string]bool{}
	capture := func(what string, b *Builder, table string, cols []string, row []any) {
		t.Helper()
		before := append([]byte{}, b.buf...)
		z.Guard(t, func() string { return what }, func() {
			ex := b.InsertRow(table, cols, row)
			if b.err != nil || ex == nil {
				z.Fail(t, "%s fails: %v", what, b.err)
			}
			if !z.Kept(before, b.buf) {
				z.Fail(t, "%s changes what was built before", what)
			}
			fs, err := z.Frames(b.buf[len(before):])
			if err != nil || len(fs) != 2 || fs[0].Type != 18 || fs[1].Type != 12 {
				z.Fail(t, "%s does not give an insert and a statement (%d messages, %v)", what, len(fs), err)
			}
			w := fInsert(table, cols, row)
			if err := z.Same(fs[0].Body, w.msg, w.want); err != nil {
				z.Fail(t, "%s: the insert %v", what, err)
			}
			st := &mysqlx_sql.StmtExecute{}
			if err := proto.Unmarshal(fs[1].Body, st); err != nil || len(st.Args) != 0 {
				z.Fail(t, "%s: the statement does not decode: %v", what, err)
			}
			sql := string(st.Stmt)
			if !strings.HasPrefix(sql, "SET @") || !strings.HasSuffix(sql, " = LAST_INSERT_ID()") {
				z.Fail(t, "%s: the statement is %q", what, sql)
			}
			name := strings.TrimSuffix(strings.TrimPrefix(sql, "SET "), " = LAST_INSERT_ID()")
			for _, tag := range []uint8{1, 4, 15} {
				for j := 0; j < 4; j++ {
					p := z.Buf(j)
					keep := string(p)
					out, err := ex(p, tag)
					if err != nil || !z.Kept([]byte(keep), out) {
						z.Fail(t, "%s: the returned expression fails: %v", what, err)
					}
					body, err := z.Field(out[len(keep):], tag)
					if err != nil {
						z.Fail(t, "%s: the returned expression: %v", what, err)
					}
					e := &mysqlx_expr.Expr{}
					if err := proto.Unmarshal(body, e); err != nil || e.GetType() != mysqlx_expr.Expr_VARIABLE || e.GetVariable() != name {
						z.Fail(t, "%s: the statement sets %q, the returned expression is {%v} (%v)", what, name, e, err)
					}
				}
			}
			if seen[name] {
				z.Fail(t, "%s: the variable %s is used twice in one unit of work", what, name)
			}
			seen[name] = true
		})
	}
	// captures at chosen distances from each other
	for _, dist := range []int{128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072, 262144, 1 << 20, 1 << 21} {
		for _, first := range []int{0, 1, 200} {
			seen = map[string]bool{}
			x := New(0)
			if first > 0 {
				x.StmtExecute(z.Text(first))
			}
			d := fmt.Sprintf("InsertRow %d bytes after another", dist)
			capture(d, &x.Builder, "t", nil, nil)
			n := len(x.buf)
			y := New(0)
			y.buf = append(y.buf, x.buf...)
			y.InsertRow("t", nil, nil)
			pad := dist - (len(y.buf) - n)
			if pad < 12 {
				continue
			}
			// a statement of exactly pad bytes
			for l := pad - 7; l >= 0 && l >= pad-16; l-- {
				y = New(0)
				y.StmtExecute(z.Text(l))
				if len(y.buf) == pad {
					x.StmtExecute(z.Text(l))
					break
				}
			}
			capture(d, &x.Builder, "t", nil, nil)
		}
	}
	for i := 0; i < 6; i++ {
		for _, n := range z.SmallLens() {
			seen = map[string]bool{}
			x, _ := newBuilder(i)
			cols := []string{"a", "b"}
			row := []any{z.Text(n), n}
			d := fmt.Sprintf("InsertRow(value of length %d)", n)
			capture(d, &x.Builder, "t", cols, row)
			capture(d+" again", &x.Builder, "t", cols, row)
			x.StmtExecute("SELECT 1")
			capture(d+" with small row", &x.Builder, "t", nil, nil)
			capture(d+" with small row again", &x.Builder, "t", nil, nil)
			x.Tx(0, func(b *Builder) error {
				capture(d+" in a transaction", b, "t", cols, row)
				b.Tx(0, func(b *Builder) error { capture(d+" in two transactions", b, "t", cols, row); return nil })
				return nil
			})
			capture(d+" after a transaction", &x.Builder, "t", cols, row)
		}
	}
	_ = xproto.AppendExprFunc(nil)
}
