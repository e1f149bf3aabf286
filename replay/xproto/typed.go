//go:build go1.22

package xproto

import (
	"fmt"
	"testing"

	"github.com/renthraysk/xtorm/collation"
	z "github.com/renthraysk/xtorm/zzverif"
)

func testTyped(t *testing.T, i int, s string, c uint64) {
	t.Helper()
	nm := func(k string) string { return fmt.Sprintf("%s(number %d)", k, c) }
	checkEnc(t, nm("AppendAnyString"), s, z.Str{s, c}, i, func(p []byte, tag uint8) ([]byte, error) {
		return AppendAnyString(p, tag, s, collation.Collation(c)), nil
	}, z.SameAny)
	checkEnc(t, nm("AppendExprString"), s, z.Str{s, c}, i, func(p []byte, tag uint8) ([]byte, error) {
		return AppendExprString(p, tag, s, collation.Collation(c)), nil
	}, z.SameExpr)
	ct := ContentType(c)
	o := z.Octets{[]byte(s), uint32(c)}
	b := []byte(s)
	checkEnc(t, nm("AppendAnyBytes"), b, o, i, func(p []byte, tag uint8) ([]byte, error) { return AppendAnyBytes(p, tag, b, ct), nil }, z.SameAny)
	checkEnc(t, nm("AppendExprBytes"), b, o, i, func(p []byte, tag uint8) ([]byte, error) { return AppendExprBytes(p, tag, b, ct), nil }, z.SameExpr)
	checkEnc(t, nm("AppendAnyBytesString"), s, o, i, func(p []byte, tag uint8) ([]byte, error) { return AppendAnyBytesString(p, tag, s, ct), nil }, z.SameAny)
	checkEnc(t, nm("AppendExprBytesString"), s, o, i, func(p []byte, tag uint8) ([]byte, error) { return AppendExprBytesString(p, tag, s, ct), nil }, z.SameExpr)
}
