//go:build go1.22

package types

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	z "github.com/renthraysk/xtorm/zzverif"
)

func TestC21(t *testing.T) {
	r := z.Rand()
	one := func(digits []byte, sign byte, scale int) {
		d := []byte{byte(scale)}
		nibs := append(append([]byte(nil), digits...), sign)
		if len(nibs)%2 == 1 {
			nibs = append(nibs, byte(r.Intn(16)))
		}
		for i := 0; i < len(nibs); i += 2 {
			d = append(d, nibs[i]<<4|nibs[i+1])
		}
		neg := sign == 0xB || sign == 0xD
		text := ""
		if neg {
			text = "-"
		}
		n := new(big.Int)
		for i, c := range digits {
			if scale > 0 && i == len(digits)-scale {
				text += "."
			}
			text += string('0' + rune(c))
			n.Mul(n, big.NewInt(10)).Add(n, big.NewInt(int64(c)))
		}
		want := n.Bytes()
		if len(want) == 0 {
			want = []byte{0}
		}
		keep := append([]byte(nil), d...)
		var buf []byte
		if k := r.Intn(40); k > 0 {
			buf = bytes.Repeat([]byte{0xEE}, k)
		}
		z.Guard(t, func() string { return fmt.Sprintf("Decimal(%x)", keep) }, func() {
			if s := Decimal(d).String(); s != text {
				z.Fail(t, "Decimal(%x).String() = %q, expected %q", keep, s, text)
			}
			form, ng, co, exp := Decimal(d).Decompose(buf)
			if form != 0 || ng != neg || !bytes.Equal(co, want) || exp != -int32(scale) {
				z.Fail(t, "Decimal(%x).Decompose = %d, %v, %x, %d; expected 0, %v, %x, %d", keep, form, ng, co, exp, neg, want, -scale)
			}
			if !bytes.Equal(d, keep) {
				z.Fail(t, "Decimal(%x) was changed to %x", keep, d)
			}
		})
	}
	for m := 1; m <= 77; m++ {
		for sign := byte(0xA); sign <= 0xF; sign++ {
			for k := 0; k < 60; k++ {
				digits := make([]byte, m)
				for i := range digits {
					switch k % 4 {
					case 0:
						digits[i] = byte(r.Intn(10))
					case 1:
						digits[i] = 9
					case 2:
						if i >= m-1-r.Intn(m) {
							digits[i] = byte(r.Intn(10))
						}
					case 3:
						if i == k/4 {
							digits[i] = 1
						}
					}
				}
				scale := r.Intn(m + 1)
				switch k {
				case 0, 1:
					scale = 0
				case 2, 3:
					scale = m
				}
				one(digits, sign, scale)
			}
		}
	}
	for sh := uint(1); sh < 256; sh++ { // around powers of two
		for d := int64(-2); d <= 2; d++ {
			n := new(big.Int).Lsh(big.NewInt(1), sh)
			n.Add(n, big.NewInt(d))
			s := n.String()
			if len(s) > 77 || n.Sign() < 0 {
				continue
			}
			var digits []byte
			for i := range s {
				digits = append(digits, s[i]-'0')
			}
			one(digits, 0xC, r.Intn(len(digits)+1))
			one(digits, 0xD, 0)
		}
	}
}
