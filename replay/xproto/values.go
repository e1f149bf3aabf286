//go:build go1.22

package xproto

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"testing"
	"time"
	"unsafe"

	z "github.com/renthraysk/xtorm/zzverif"
)

// values calls f with values of every supported type.
func values(f func(v any)) {
	f(nil)
	f(true)
	f(false)
	for _, u := range z.Ints() {
		f(int64(u))
		f(u)
		f(int(u))
		f(uint(u))
		f(int32(u))
		f(uint32(u))
		f(int16(u))
		f(uint16(u))
		f(int8(u))
		f(uint8(u))
		f(math.Float64frombits(u))
		f(math.Float32frombits(uint32(u)))
		f(time.Duration(u))
		f(time.Duration(u) * time.Second)
		f(time.Duration(int64(u)%100000) * time.Millisecond * 997)
	}
	for _, n := range z.Lens() {
		f(z.Text(n))
		f([]byte(z.Text(n)))
	}
	for _, s := range z.OddTexts() {
		f(s)
		f([]byte(s))
	}
	f([]byte(nil))
	for _, x := range []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 0.1, 1e10, 1 << 53, 1<<53 + 2, 1 << 63, -(1 << 63), 1 << 64, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64,
		math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 3.25, 1e300, 123456789.125, 16777216, 16777217} {
		f(x)
		f(float32(x))
	}
	for i := 0; i < 70; i++ {
		f(float64(i))
		f(float32(-i))
		f(float64(uint64(1) << (i % 64)))
	}
	r := z.Rand()
	for _, h := range z.Hints() {
		f(time.Unix(int64(h%(1<<34)), 0).UTC())
		f(time.Unix(1600000000, int64(h%1e9)).UTC())
	}
	for _, ns := range []int{0, 1, 9, 10, 99, 100, 999, 1000, 1001, 9000, 10000, 99999, 100000, 123000, 999999, 1000000, 1001000, 120000000, 123000000, 123456000, 123456789, 500000000, 999000000, 999999000, 999999999} {
		for _, y := range []int{0, 1, 99, 100, 999, 1000, 1582, 1901, 1969, 1970, 1999, 2000, 2020, 2024, 2038, 9998, 9999, 10000, 123456} {
			for _, md := range [][2]int{{1, 1}, {2, 28}, {2, 29}, {9, 10}, {10, 9}, {12, 31}} {
				h := (ns + y + md[1]) % 24
				f(time.Date(y, time.Month(md[0]), md[1], h, (y+ns)%60, (y*7+ns)%60, ns, time.UTC))
			}
		}
	}
	for m := 0; m < 24*60*60; m += 61 {
		f(time.Date(2021, 3, 14, 0, 0, m, 0, time.UTC))
	}
	for d := 0; d < 800; d++ {
		f(time.Date(2019, 12, 30, 11, 12, 13, 0, time.UTC).AddDate(0, 0, d))
	}
	for off := -14 * 4; off <= 14*4; off++ {
		f(time.Date(2021, 6, 30, 23, 59, 59, 5, time.FixedZone("z", off*900)))
	}
	f(time.Now())
	for _, loc := range []*time.Location{time.UTC, time.FixedZone("x", 5*3600+1800), time.FixedZone("y", -7*3600)} {
		f(time.Time{}.In(loc))
		for i := 0; i < 300; i++ {
			f(time.Unix(r.Int63n(1<<35)-1<<33, r.Int63n(1e9)).In(loc))
		}
		f(time.Date(2020, 1, 2, 3, 4, 5, 0, loc))
		f(time.Date(999, 12, 31, 23, 59, 59, 999999999, loc))
		f(time.Date(9999, 12, 31, 23, 59, 59, 1, loc))
		f(time.Date(12345, 1, 1, 0, 0, 0, 7, loc))
	}
	for s := 0; s < 7300; s++ {
		f(time.Duration(s) * time.Second)
		f(-time.Duration(s)*time.Second - 1)
	}
}

type unsupportedStruct struct{ A int }
type namedInt int

type userArg struct{ fail bool }

func (u userArg) AppendAny(p []byte, tag uint8) ([]byte, error) {
	if u.fail {
		return nil, errors.New("user")
	}
	return AppendAnyString(p, tag, "user", 0), nil
}

func (u userArg) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	if u.fail {
		return nil, errors.New("user")
	}
	return AppendExprString(p, tag, "user", 0), nil
}

// ptrArg and ptrNum encode themselves through a pointer; what they point to would be encoded otherwise.
type ptrArg struct{ s string }

func (u *ptrArg) AppendAny(p []byte, tag uint8) ([]byte, error) {
	if u == nil {
		return AppendAnyString(p, tag, "nil user", 0), nil
	}
	return AppendAnyString(p, tag, u.s, 0), nil
}

func (u *ptrArg) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	if u == nil {
		return AppendExprString(p, tag, "nil user", 0), nil
	}
	return AppendExprString(p, tag, u.s, 0), nil
}

type valArg int

func (u valArg) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return AppendAnyString(p, tag, "value", 0), nil
}

func (u valArg) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return AppendExprString(p, tag, "value", 0), nil
}

func ptrs(v any) []any {
	switch x := v.(type) {
	case int64:
		p := &x
		return []any{p, &p, &v}
	case nil:
		return nil
	case int8:
		return []any{&x}
	case int16:
		return []any{&x}
	case int32:
		return []any{&x}
	case uint:
		return []any{&x}
	case uint16:
		return []any{&x}
	case uint32:
		return []any{&x, &v}
	case uint8:
		return []any{&x}
	case int:
		return []any{&x}
	case string:
		p := &x
		return []any{p, &p}
	case bool:
		return []any{&x}
	case float64:
		return []any{&x}
	case float32:
		return []any{&x}
	case uint64:
		return []any{&x}
	case []byte:
		return []any{&x}
	case time.Time:
		return []any{&x}
	case time.Duration:
		return []any{&x}
	}
	return nil
}

func checkEnc(t *testing.T, what string, v, want any, i int, enc func(p []byte, tag uint8) ([]byte, error), same func(b []byte, tag byte, v any) error) {
	t.Helper()
	tag := uint8(1 + i%15)
	buf := z.Buf(i)
	keep := string(buf)
	desc := func() string {
		return fmt.Sprintf("%s(buffer len %d cap %d, tag %d, %s)", what, len(buf), cap(buf), tag, z.Clip(v))
	}
	z.Guard(t, desc, func() {
		out, err := enc(buf, tag)
		if err != nil {
			z.Fail(t, "%s fails: %v", desc(), err)
		}
		if !z.Kept([]byte(keep), out) || string(buf) != keep {
			z.Fail(t, "%s changes bytes already in the buffer", desc())
		}
		if err := same(out[len(buf):], tag, want); err != nil {
			z.Fail(t, "%s: %v", desc(), err)
		}
	})
}

func checkErr(t *testing.T, what string, v any, enc func(p []byte, tag uint8) ([]byte, error)) {
	t.Helper()
	desc := func() string { return fmt.Sprintf("%s(%s)", what, z.Clip(v)) }
	z.Guard(t, desc, func() {
		if _, err := enc(z.Buf(2), 2); err == nil {
			z.Fail(t, "%s is accepted", desc())
		}
	})
}

// own: values that encode themselves.
func own(one func(v, want any)) {
	one(&userArg{}, "user")
	one(&ptrArg{"through a pointer"}, "through a pointer")
	one((*ptrArg)(nil), "nil user")
	one(valArg(3), "value")
	va := valArg(4)
	one(&va, "value")
}

type (
	namedBool   bool
	namedInt8   int8
	namedInt16  int16
	namedInt32  int32
	namedInt64  int64
	namedUint   uint
	namedUint8  uint8
	namedUint16 uint16
	namedUint32 uint32
	namedUint64 uint64
	namedF32    float32
	namedF64    float64
	namedString string
	namedBytes  []byte
	namedTime   time.Time
	namedDur    time.Duration
	embedTime   struct{ time.Time }
)

// namedValues are of types that are not accepted, though their kinds are.
func namedValues() []any {
	return []any{namedBool(true), namedBool(false), namedInt8(1), namedInt16(1), namedInt32(1), namedInt64(1), namedUint(1), namedUint8(1), namedUint16(1), namedUint32(1), namedUint64(1),
		namedF32(1), namedF64(1), namedString("x"), namedString(""), namedBytes("x"), namedBytes(nil), namedTime{}, namedDur(1), embedTime{}, uintptr(1), time.January, time.UTC.String, []string{"x"}, []any{nil},
		[]any(nil), []uint16(nil), map[string]any(nil), (chan int)(nil), (func())(nil), complex64(1), [0]byte{}, [1]string{}, struct{}{}, reflect.ValueOf(1)}
}

func TestC01(t *testing.T) {
	i := 0
	one := func(v, want any) {
		i++
		checkEnc(t, "appendAny", v, want, i, func(p []byte, tag uint8) ([]byte, error) { return appendAny(p, tag, v) }, z.SameAny)
	}
	values(func(v any) {
		one(v, v)
		if s, ok := v.(string); ok && len(s) > 1000 {
			return
		}
		for _, p := range ptrs(v) {
			one(p, v)
		}
	})
	var np *int
	var npp **string
	one(np, nil)
	one(npp, nil)
	one(&np, nil)
	one(userArg{}, "user")
	own(one)
	pu, pp := &userArg{}, &ptrArg{"through a pointer"}
	one(&pu, "user")
	one(&pp, "through a pointer")
	var nb []byte
	var nbp *[]byte
	var nt *time.Time
	one(&nb, nil)
	one(nbp, nil)
	one(nt, nil)
	one(&nt, nil)
	// a pointer to a nil interface: NULL or an error, never nothing
	var ni any
	z.Guard(t, func() string { return "appendAny(pointer to a nil interface)" }, func() {
		if b, err := appendAny(nil, 2, &ni); err == nil {
			if err := z.SameAny(b, 2, nil); err != nil {
				z.Fail(t, "appendAny(pointer to a nil interface): %v", err)
			}
		}
	})
	for _, v := range []any{unsupportedStruct{}, namedInt(1), []int{1}, map[string]int{}, complex(1, 2), make(chan int), &unsupportedStruct{}, [2]byte{}, func() {}, userArg{true}, errors.New("x"), unsafe.Pointer(&nb)} {
		checkErr(t, "appendAny", v, func(p []byte, tag uint8) ([]byte, error) { return appendAny(p, tag, v) })
	}
	for _, v := range namedValues() {
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		for _, v := range []any{v, p.Interface()} {
			checkErr(t, "appendAny", v, func(p []byte, tag uint8) ([]byte, error) { return appendAny(p, tag, v) })
		}
	}
}

func TestC02(t *testing.T) {
	i := 0
	one := func(v, want any) {
		i++
		checkEnc(t, "appendExpr", v, want, i, func(p []byte, tag uint8) ([]byte, error) { return appendExpr(p, tag, v) }, z.SameExpr)
	}
	values(func(v any) { one(v, v) })
	one(userArg{}, "user")
	own(one)
	one(AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return AppendExprColumn(p, tag, "c") }), z.Col("c"))
	for _, v := range []any{unsupportedStruct{}, namedInt(1), []int{1}, map[string]int{}, complex(1, 2), make(chan int), new(int), [2]byte{}, userArg{true}, func() {},
		AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return nil, errors.New("f") })} {
		checkErr(t, "appendExpr", v, func(p []byte, tag uint8) ([]byte, error) { return appendExpr(p, tag, v) })
	}
	for _, v := range namedValues() {
		checkErr(t, "appendExpr", v, func(p []byte, tag uint8) ([]byte, error) { return appendExpr(p, tag, v) })
	}
}

func TestC03(t *testing.T) {
	i := 0
	for _, n := range z.Lens() {
		colls := []uint64{0, 1, 63, 127, 128, 255, 256, 16383, 16384, 1 << 20, 1<<32 - 1, 1 << 32, 1<<63 + 5, ^uint64(0)}
		if n > 1000 {
			colls = colls[:5]
		}
		s := z.Text(n)
		for _, c := range colls {
			i++
			testTyped(t, i, s, c)
		}
	}
	for k := 0; k < 64; k++ {
		i++
		testTyped(t, i, "abc", 1<<k)
		testTyped(t, i, "abc", 1<<k-1)
	}
	for _, h := range z.Hints() {
		i++
		testTyped(t, i, "abc", h)
	}
	for _, ct := range []ContentType{0, 1, 2, 3} {
		i++
		checkEnc(t, "AppendAnyBytes", []byte(nil), nil, i, func(p []byte, tag uint8) ([]byte, error) { return AppendAnyBytes(p, tag, nil, ct), nil }, z.SameAny)
		checkEnc(t, "AppendExprBytes", []byte(nil), nil, i, func(p []byte, tag uint8) ([]byte, error) { return AppendExprBytes(p, tag, nil, ct), nil }, z.SameExpr)
	}
}

func TestC04(t *testing.T) {
	one := func(d time.Duration) {
		for i := 0; i < 3; i++ {
			buf := z.Buf(i)
			keep := string(buf)
			z.Guard(t, func() string { return fmt.Sprintf("AppendDuration(%d)", int64(d)) }, func() {
				out := AppendDuration(buf, d)
				if string(out) != keep+z.DurText(d) || string(buf) != keep {
					z.Fail(t, "AppendDuration(len %d, time.Duration(%d)) appends %q, expected %q", len(buf), int64(d), clipS(out, len(keep)), z.DurText(d))
				}
			})
		}
	}
	for _, u := range z.Ints() {
		one(time.Duration(u))
		one(time.Duration(u) * time.Second)
		one(time.Duration(u)*time.Minute - 1)
		one(time.Duration(u) * time.Hour)
	}
	for s := -90000; s < 90000; s += 7 {
		one(time.Duration(s) * time.Second)
		one(time.Duration(s)*time.Second - 1)
		one(time.Duration(s)*time.Second + 999999999)
	}
}

func clipS(b []byte, n int) string {
	if n > len(b) {
		n = 0
	}
	return string(b[n:])
}

func TestC05(t *testing.T) {
	i := 0
	one := func(what string, want any, enc func(p []byte, tag uint8) ([]byte, error)) {
		i++
		checkEnc(t, what, want, want, i, enc, z.SameExpr)
	}
	for _, n := range z.Lens() {
		s := z.Text(n)
		one("AppendExprColumn", z.Col(s), func(p []byte, tag uint8) ([]byte, error) { return AppendExprColumn(p, tag, s) })
		one("AppendExprVariable", z.Var(s), func(p []byte, tag uint8) ([]byte, error) { return AppendExprVariable(p, tag, s) })
		one("AppendExprOperator", z.Op{s, nil}, func(p []byte, tag uint8) ([]byte, error) { return AppendExprOperator(p, tag, s, nil) })
		one("AppendExprFunctionCall", z.Call{s, nil}, func(p []byte, tag uint8) ([]byte, error) { return AppendExprFunctionCall(p, tag, s, nil) })
		if n < 70000 {
			for _, m := range []int{0, 1, 2, 3, 5, 40, 255, 256, 300, 1000} {
				if m > 40 && n > 20 {
					continue
				}
				args := make([]any, m)
				for j := range args {
					args[j] = s[:min(len(s), 200)]
				}
				if m > 0 {
					args[m-1] = int64(n)
					args[0] = s
				}
				one("AppendExprOperator", z.Op{"==", args}, func(p []byte, tag uint8) ([]byte, error) { return AppendExprOperator(p, tag, "==", args) })
				one("AppendExprOperatorV", z.Op{"==", args}, func(p []byte, tag uint8) ([]byte, error) { return AppendExprOperatorV(p, tag, "==", args...) })
				one("AppendExprFunctionCall", z.Call{"concat", args}, func(p []byte, tag uint8) ([]byte, error) { return AppendExprFunctionCall(p, tag, "concat", args) })
				one("AppendExprFunctionCallV", z.Call{"concat", args}, func(p []byte, tag uint8) ([]byte, error) { return AppendExprFunctionCallV(p, tag, "concat", args...) })
			}
		}
	}
	for _, u := range z.Ints() {
		one("AppendExprPlaceholder", z.Pos(uint32(u)), func(p []byte, tag uint8) ([]byte, error) { return AppendExprPlaceholder(p, tag, uint32(u)) })
	}
	// nesting
	var fn AppendExprFunc = func(p []byte, tag uint8) ([]byte, error) { return AppendExprColumn(p, tag, "a") }
	var want any = z.Col("a")
	for d := 0; d < 60; d++ {
		in, w := fn, want
		txt := z.Text(d * 11)
		fn = func(p []byte, tag uint8) ([]byte, error) {
			if d%2 == 0 {
				return AppendExprOperatorV(p, tag, "&&", txt, in, d)
			}
			return AppendExprFunctionCallV(p, tag, txt, in, txt)
		}
		if d%2 == 0 {
			want = z.Op{"&&", []any{txt, w, d}}
		} else {
			want = z.Call{txt, []any{w, txt}}
		}
		one("nested expression", want, fn)
	}
	for _, pos := range []int{0, 1, 2} {
		args := []any{1, 2, 3}
		args[pos] = userArg{true}
		checkErr(t, "AppendExprOperator", args, func(p []byte, tag uint8) ([]byte, error) { return AppendExprOperator(p, tag, "in", args) })
		checkErr(t, "AppendExprFunctionCall", args, func(p []byte, tag uint8) ([]byte, error) { return AppendExprFunctionCall(p, tag, "in", args) })
	}
}
