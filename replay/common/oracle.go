//go:build go1.22

package zzverif

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"github.com/golang/protobuf/proto"

	"github.com/renthraysk/xtorm/protobuf/mysqlx_datatypes"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_expr"
)

// Octets is data with a content type, Str a string with a collation.
type Octets struct {
	B  []byte
	CT uint32
}
type Str struct {
	S    string
	Coll uint64
}

func DurText(d time.Duration) string {
	v := big.NewInt(int64(d))
	s := ""
	if v.Sign() < 0 {
		s = "-"
		v.Neg(v)
	}
	v.Quo(v, big.NewInt(1e9))
	u := v.Uint64()
	return fmt.Sprintf("%s%d:%02d:%02d", s, u/3600, u/60%60, u%60)
}

func TimeText(t time.Time) string {
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d.%09d", t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond())
}

var errUnsupported = errors.New("unsupported")

// WantScalar is the scalar a Go value must decode to.
func WantScalar(v any) (*mysqlx_datatypes.Scalar, error) {
	s := &mysqlx_datatypes.Scalar{}
	ty := func(t mysqlx_datatypes.Scalar_Type) { s.Type = &t }
	si := func(x int64) { ty(mysqlx_datatypes.Scalar_V_SINT); s.VSignedInt = &x }
	ui := func(x uint64) { ty(mysqlx_datatypes.Scalar_V_UINT); s.VUnsignedInt = &x }
	oct := func(b []byte, ct uint32) {
		if b == nil {
			ty(mysqlx_datatypes.Scalar_V_NULL)
			return
		}
		ty(mysqlx_datatypes.Scalar_V_OCTETS)
		s.VOctets = &mysqlx_datatypes.Scalar_Octets{Value: append([]byte{}, b...)}
		if ct != 0 {
			s.VOctets.ContentType = &ct
		}
	}
	str := func(x string, c uint64) {
		ty(mysqlx_datatypes.Scalar_V_STRING)
		s.VString = &mysqlx_datatypes.Scalar_String{Value: []byte(x)}
		if c != 0 {
			s.VString.Collation = &c
		}
	}
	switch x := v.(type) {
	case nil:
		ty(mysqlx_datatypes.Scalar_V_NULL)
	case bool:
		ty(mysqlx_datatypes.Scalar_V_BOOL)
		s.VBool = &x
	case int:
		si(int64(x))
	case int8:
		si(int64(x))
	case int16:
		si(int64(x))
	case int32:
		si(int64(x))
	case int64:
		si(x)
	case uint:
		ui(uint64(x))
	case uint8:
		ui(uint64(x))
	case uint16:
		ui(uint64(x))
	case uint32:
		ui(uint64(x))
	case uint64:
		ui(x)
	case float32:
		ty(mysqlx_datatypes.Scalar_V_FLOAT)
		s.VFloat = &x
	case float64:
		ty(mysqlx_datatypes.Scalar_V_DOUBLE)
		s.VDouble = &x
	case string:
		str(x, 0)
	case []byte:
		oct(x, 0)
	case time.Time:
		oct([]byte(TimeText(x)), 0)
	case time.Duration:
		oct([]byte(DurText(x)), 0)
	case Octets:
		oct(x.B, x.CT)
	case Str:
		str(x.S, x.Coll)
	default:
		return nil, errUnsupported
	}
	return s, nil
}

func WantAny(v any) *mysqlx_datatypes.Any {
	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return WantAny(nil)
		}
		return WantAny(rv.Elem().Interface())
	}
	s, err := WantScalar(v)
	if err != nil {
		return nil
	}
	t := mysqlx_datatypes.Any_SCALAR
	return &mysqlx_datatypes.Any{Type: &t, Scalar: s}
}

// Expected expression trees.
type Op struct {
	Name string
	Args []any
}
type Call struct {
	Name string
	Args []any
}
type Col string
type Var string
type Pos uint32

func exprType(t mysqlx_expr.Expr_Type) *mysqlx_expr.Expr_Type { return &t }

func WantExpr(v any) *mysqlx_expr.Expr {
	args := func(as []any) []*mysqlx_expr.Expr {
		var out []*mysqlx_expr.Expr
		for _, a := range as {
			out = append(out, WantExpr(a))
		}
		return out
	}
	switch x := v.(type) {
	case Op:
		return &mysqlx_expr.Expr{Type: exprType(mysqlx_expr.Expr_OPERATOR), Operator: &mysqlx_expr.Operator{Name: &x.Name, Param: args(x.Args)}}
	case Call:
		return &mysqlx_expr.Expr{Type: exprType(mysqlx_expr.Expr_FUNC_CALL), FunctionCall: &mysqlx_expr.FunctionCall{Name: &mysqlx_expr.Identifier{Name: &x.Name}, Param: args(x.Args)}}
	case Col:
		s := string(x)
		return &mysqlx_expr.Expr{Type: exprType(mysqlx_expr.Expr_IDENT), Identifier: &mysqlx_expr.ColumnIdentifier{Name: &s}}
	case Var:
		s := string(x)
		return &mysqlx_expr.Expr{Type: exprType(mysqlx_expr.Expr_VARIABLE), Variable: &s}
	case Pos:
		u := uint32(x)
		return &mysqlx_expr.Expr{Type: exprType(mysqlx_expr.Expr_PLACEHOLDER), Position: &u}
	}
	s, err := WantScalar(v)
	if err != nil {
		return nil
	}
	return &mysqlx_expr.Expr{Type: exprType(mysqlx_expr.Expr_LITERAL), Literal: s}
}

// Field splits off the one length-delimited field that b must consist of.
func Field(b []byte, tag byte) ([]byte, error) {
	if len(b) == 0 || b[0] != tag<<3|2 {
		return nil, fmt.Errorf("field key is wrong: % x", b[:min(len(b), 4)])
	}
	n, k := binary.Uvarint(b[1:])
	if k <= 0 || uint64(len(b)-1-k) != n {
		return nil, fmt.Errorf("field of length %d where %d bytes follow", n, len(b)-1-k)
	}
	return b[1+k:], nil
}

// Same decodes body into got and compares it with want, bit for bit.
func Same(body []byte, got, want proto.Message) error {
	if err := proto.Unmarshal(body, got); err != nil {
		return fmt.Errorf("does not decode: %v", err)
	}
	a, err := proto.Marshal(got)
	if err != nil {
		return err
	}
	b, err := proto.Marshal(want)
	if err != nil {
		return err
	}
	if !bytes.Equal(a, b) {
		return fmt.Errorf("decodes to {%s}, expected {%s}", clip(got.String()), clip(want.String()))
	}
	return nil
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func SameAny(b []byte, tag byte, v any) error {
	body, err := Field(b, tag)
	if err != nil {
		return err
	}
	return Same(body, &mysqlx_datatypes.Any{}, WantAny(v))
}

func SameExpr(b []byte, tag byte, v any) error {
	body, err := Field(b, tag)
	if err != nil {
		return err
	}
	return Same(body, &mysqlx_expr.Expr{}, WantExpr(v))
}
