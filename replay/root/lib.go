//go:build go1.22

package xtorm

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"

	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_datatypes"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_expect"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_expr"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_prepare"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_sql"
	z "github.com/renthraysk/xtorm/zzverif"
)

var _ = time.Second

// bad cannot be encoded.
type bad struct{}

// failing is an encoder that fails.
type failing struct{}

func (failing) AppendAny(p []byte, tag uint8) ([]byte, error)  { return nil, errors.New("failing") }
func (failing) AppendExpr(p []byte, tag uint8) ([]byte, error) { return nil, errors.New("failing") }

// short is an encoder that fails and returns a truncated buffer.
type short struct{}

func (short) AppendAny(p []byte, tag uint8) ([]byte, error) { return p[:len(p)/2], errors.New("short") }
func (short) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return p[:len(p)/2], errors.New("short")
}

func failExpr(p []byte, tag uint8) ([]byte, error) { return nil, errors.New("criteria") }

func badValues() []any { return []any{bad{}, failing{}, short{}, exprFunc(failExpr)} }

// newBuilder gives a builder over a buffer with old bytes in its spare capacity, that already holds messages.
func newBuilder(i int) (*XPipe, []byte) {
	x := New([]int{0, 0, 64, 4096, 100000}[i%5])
	if i%5 > 1 {
		x.Builder.buf = append(x.Builder.buf[:0], make([]byte, cap(x.Builder.buf))...)
		for j := range x.Builder.buf {
			x.Builder.buf[j] = byte(0xA5 + j*7)
		}
		x.Builder.buf = x.Builder.buf[:0]
	}
	for j := 0; j < i%3; j++ {
		x.StmtExecute(z.Text(j*50), j)
	}
	return x, append([]byte{}, x.Builder.buf...)
}

type frame struct {
	typ  byte
	msg  proto.Message // to decode into
	want proto.Message
}

func fStmt(sql string, args ...any) frame {
	w := &mysqlx_sql.StmtExecute{Stmt: []byte(sql)}
	for _, a := range args {
		w.Args = append(w.Args, z.WantAny(a))
	}
	return frame{12, &mysqlx_sql.StmtExecute{}, w}
}

func fPrepare(id uint32, sql string) frame {
	t := mysqlx_prepare.Prepare_OneOfMessage_STMT
	return frame{40, &mysqlx_prepare.Prepare{}, &mysqlx_prepare.Prepare{StmtId: &id, Stmt: &mysqlx_prepare.Prepare_OneOfMessage{Type: &t, StmtExecute: &mysqlx_sql.StmtExecute{Stmt: []byte(sql)}}}}
}

func fExecute(id uint32, args ...any) frame {
	w := &mysqlx_prepare.Execute{StmtId: &id}
	for _, a := range args {
		w.Args = append(w.Args, z.WantAny(a))
	}
	return frame{41, &mysqlx_prepare.Execute{}, w}
}

func fDealloc(id uint32) frame {
	return frame{42, &mysqlx_prepare.Deallocate{}, &mysqlx_prepare.Deallocate{StmtId: &id}}
}

func fOpen(ctx byte) frame {
	op := mysqlx_expect.Open_CtxOperation(ctx)
	k := uint32(mysqlx_expect.Open_Condition_EXPECT_NO_ERROR)
	return frame{24, &mysqlx_expect.Open{}, &mysqlx_expect.Open{Op: &op, Cond: []*mysqlx_expect.Open_Condition{{ConditionKey: &k, ConditionValue: []byte("1")}}}}
}

func fClose() frame { return frame{25, &mysqlx_expect.Close{}, &mysqlx_expect.Close{}} }

func model() *mysqlx_crud.DataModel { m := mysqlx_crud.DataModel_TABLE; return &m }

func fInsert(table string, cols []string, rows ...[]any) frame {
	w := &mysqlx_crud.Insert{Collection: &mysqlx_crud.Collection{Name: &table}, DataModel: model()}
	for i := range cols {
		w.Projection = append(w.Projection, &mysqlx_crud.Column{Name: &cols[i]})
	}
	for _, r := range rows {
		tr := &mysqlx_crud.Insert_TypedRow{}
		for _, v := range r {
			tr.Field = append(tr.Field, z.WantExpr(v))
		}
		w.Row = append(w.Row, tr)
	}
	return frame{18, &mysqlx_crud.Insert{}, w}
}

type set struct {
	name string
	v    any
}

func fUpdate(table string, crit any, sets ...set) frame {
	w := &mysqlx_crud.Update{Collection: &mysqlx_crud.Collection{Name: &table}, DataModel: model()}
	if crit != nil {
		w.Criteria = z.WantExpr(crit)
	}
	for i := range sets {
		op := mysqlx_crud.UpdateOperation_SET
		w.Operation = append(w.Operation, &mysqlx_crud.UpdateOperation{Source: &mysqlx_expr.ColumnIdentifier{Name: &sets[i].name}, Operation: &op, Value: z.WantExpr(sets[i].v)})
	}
	return frame{19, &mysqlx_crud.Update{}, w}
}

func fDelete(table string, crit any) frame {
	w := &mysqlx_crud.Delete{Collection: &mysqlx_crud.Collection{Name: &table}}
	if crit != nil {
		w.Criteria = z.WantExpr(crit)
	}
	return frame{20, &mysqlx_crud.Delete{}, w}
}

// same checks that after before, the buffer holds exactly these messages.
func same(before, after []byte, want []frame) error {
	if !z.Kept(before, after) {
		return errors.New("bytes already built have changed")
	}
	fs, err := z.Frames(after[len(before):])
	if err != nil {
		return err
	}
	if len(fs) != len(want) {
		return fmt.Errorf("%d messages, expected %d", len(fs), len(want))
	}
	for i, f := range fs {
		if f.Type != want[i].typ {
			return fmt.Errorf("message %d has type %d, expected %d", i, f.Type, want[i].typ)
		}
		if d, ok := want[i].want.(*mysqlx_crud.Delete); ok {
			// the data model may be given or not: the server takes the default
			got := &mysqlx_crud.Delete{}
			if proto.Unmarshal(f.Body, got) == nil && got.DataModel != nil {
				d.DataModel = model()
			}
		}
		if err := z.Same(f.Body, want[i].msg, want[i].want); err != nil {
			return fmt.Errorf("message %d (type %d) %v", i, f.Type, err)
		}
	}
	return nil
}

// builds runs op on a builder and expects exactly these messages and no error.
func builds(t *testing.T, i int, what string, op func(b *Builder), want ...frame) {
	t.Helper()
	x, before := newBuilder(i)
	desc := func() string {
		return fmt.Sprintf("%s on a builder holding %d bytes (cap %d)", what, len(before), cap(x.Builder.buf))
	}
	z.Guard(t, desc, func() {
		op(&x.Builder)
		if x.Builder.err != nil {
			z.Fail(t, "%s fails: %v", desc(), x.Builder.err)
		}
		if err := same(before, x.Builder.buf, want); err != nil {
			z.Fail(t, "%s: %v", desc(), err)
		}
	})
}

// fails runs op and expects an error.
func fails(t *testing.T, i int, what string, op func(b *Builder)) {
	t.Helper()
	x, before := newBuilder(i)
	desc := func() string { return fmt.Sprintf("%s on a builder holding %d bytes", what, len(before)) }
	z.Guard(t, desc, func() {
		op(&x.Builder)
		if x.Builder.err == nil {
			z.Fail(t, "%s reports no error", desc())
		}
	})
}

// plainArgs leaves out pointers, which expressions do not take.
func plainArgs(args []any) []any {
	var out []any
	for _, a := range args {
		if reflect.ValueOf(a).Kind() != reflect.Ptr {
			out = append(out, a)
		}
	}
	return out
}

func argLists(f func(args []any)) {
	f(nil)
	f([]any{})
	one, str, tm, nul := 1, "pointed at", time.Unix(1e9, 5), (*uint16)(nil)
	pp := &one
	f([]any{[]byte(nil)})
	f([]any{[]byte{}})
	f([]any{nul, &nul, &one, &pp, &str, &tm, nil, []byte(nil), []byte{}, "", 0, false, int8(-3), int16(-300), int32(-70000), int64(-1 << 40), uint(3), uint16(300), uint32(70000), float32(1.5), tm, time.Duration(-1)})
	f([]any{1, "two", 3.5, []byte("four"), nil, true, uint8(7), -1, math.MaxUint64 / uint64(3), time.Duration(5e9)})
	for _, n := range z.SmallLens() {
		f([]any{z.Text(n)})
	}
	for _, n := range []int{2, 20, 127, 128, 129, 1000} {
		a := make([]any, n)
		for i := range a {
			a[i] = i - n/2
		}
		f(a)
	}
	r := z.Rand()
	for i := 0; i < 60; i++ {
		a := make([]any, r.Intn(12))
		for j := range a {
			switch r.Intn(10) {
			case 0:
				a[j] = r.Int63() >> uint(r.Intn(63))
			case 1:
				a[j] = z.Text(r.Intn(400))
			case 2:
				a[j] = r.Float64()
			case 3:
				a[j] = []byte(z.Text(r.Intn(300)))
			case 4:
				a[j] = nil
			case 5:
				a[j] = r.Uint64()
			case 6:
				a[j] = time.Duration(r.Int63n(1e15))
			case 7:
				a[j] = r.Intn(2) == 0
			case 8:
				a[j] = []byte(nil)
			case 9:
				k := r.Int63()
				a[j] = &k
			}
		}
		f(a)
	}
}

func anyFrame(b []byte, tag byte, v any) error { return z.SameAny(b, tag, v) }

var _ = mysqlx_datatypes.Scalar_V_NULL
