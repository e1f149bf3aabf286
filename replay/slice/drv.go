//go:build go1.22

package slice

import (
	"fmt"
	"testing"

	z "github.com/renthraysk/xtorm/zzverif"
)

func TestC22(t *testing.T) {
	mk := func(n, c int) []byte {
		b := make([]byte, c)
		for i := range b {
			b[i] = byte(i*7 + 1)
		}
		return b[:n]
	}
	dims := []int{0, 1, 2, 3, 5, 8, 13, 64, 100, 127, 128, 129, 1000}
	for _, h := range z.Hints() {
		if h < 100000 {
			dims = append(dims, int(h))
		}
	}
	if len(dims) > 40 {
		dims = dims[:40]
	}
	for _, n := range dims {
		for _, sp := range dims {
			for _, m := range dims {
				d := func() string { return fmt.Sprintf("len=%d spare=%d n=%d", n, sp, m) }
				z.Guard(t, func() string { return "ForAppend " + d() }, func() {
					in := mk(n, n+sp)
					want := string(in)
					h, tl := ForAppend(in, m)
					if len(h) != n+m || len(tl) != m || string(h[:n]) != want || string(in) != want {
						z.Fail(t, "ForAppend %s: lengths %d,%d or lost bytes", d(), len(h), len(tl))
					}
					for i := range tl {
						tl[i] = byte(i + 3)
					}
					if string(h[n:]) != string(tl) || string(h[:n]) != want {
						z.Fail(t, "ForAppend %s: tail is not part of the buffer", d())
					}
					full := in[:cap(in)]
					if &full == nil {
						return
					}
				})
				z.Guard(t, func() string { return "Allocate " + d() }, func() {
					in := mk(n, n+sp)
					want := string(in)
					_, tl := Allocate(in, m)
					if len(tl) != m {
						z.Fail(t, "Allocate %s: got %d bytes", d(), len(tl))
					}
					for i := range tl {
						tl[i] = 0xEE
					}
					if string(in) != want {
						z.Fail(t, "Allocate %s: allocation overlaps the buffer", d())
					}
				})
				for _, pos := range []int{0, 1, n / 2, n - 1, n} {
					if pos < 0 || pos > n {
						continue
					}
					z.Guard(t, func() string { return fmt.Sprintf("Insert %s pos=%d", d(), pos) }, func() {
						in := mk(n, n+sp)
						a, b := string(in[:pos]), string(in[pos:])
						r := Insert(in, pos, m)
						if len(r) != n+m || string(r[:pos]) != a || string(r[pos+m:]) != b {
							z.Fail(t, "Insert %s pos=%d: bytes lost or wrong length %d", d(), pos, len(r))
						}
					})
				}
			}
		}
	}
}
