//go:build go1.22

package zzverif

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
)

type Creds struct{ D, U, P string }

func (c Creds) Database() string { return c.D }
func (c Creds) UserName() string { return c.U }
func (c Creds) Password() string { return c.P }
func (c Creds) String() string {
	return fmt.Sprintf("database=%s user=%s password=%s", Clip(c.D), Clip(c.U), Clip(c.P))
}

// LField and LFrame build the expected messages.
func LField(tag byte, body []byte) []byte {
	return append(binary.AppendUvarint([]byte{tag<<3 | 2}, uint64(len(body))), body...)
}

func LFrame(typ byte, fields ...[]byte) []byte {
	b := append([]byte{0, 0, 0, 0, typ}, bytes.Join(fields, nil)...)
	binary.LittleEndian.PutUint32(b, uint32(len(b)-4))
	return b
}

func SameBytes(t *testing.T, what string, got, want []byte) {
	if !bytes.Equal(got, want) {
		Fail(t, "%s gave %s, expected %s", what, Clip(fmt.Sprintf("%x", got)), Clip(fmt.Sprintf("%x", want)))
	}
}

// Auth runs f over credentials, challenges and scratch buffers.
func Auth(t *testing.T, f func(c Creds, ch, buf []byte)) {
	r := Rand()
	n := 0
	one := func(c Creds, ch []byte) {
		for _, b := range []struct{ n, c int }{{0, 0}, {0, 128}, {0, 1 << 13}, {7, 7}, {3, 300}, {0, len(c.D) + len(c.U) + len(c.P) + 2}, {0, len(c.D) + len(c.U) + 43}, {0, len(c.D) + len(c.U) + 66}} {
			buf := dirty(b.n, b.c)
			for i := range buf[:cap(buf)] {
				buf[:cap(buf)][i] = 0xEE
			}
			Guard(t, func() string { return c.String() }, func() { f(c, append([]byte(nil), ch...), buf) })
		}
		n++
	}
	lens := []int{0, 1, 5, 20, 32, 61, 62, 63, 64, 83, 84, 85, 100, 120, 124, 125, 126, 127, 128, 200, 16300, 16384}
	chs := []int{20, 0, 1, 8, 64, 200}
	for i, d := range lens {
		for j, u := range lens {
			for k, p := range lens {
				if (i+j+k)%5 != 0 && d+u+p > 300 {
					continue
				}
				ch := make([]byte, chs[n%len(chs)])
				r.Read(ch)
				one(Creds{Text(d), Text(u), Text(p)}, ch)
			}
		}
	}
	for _, p := range []int{2, 3, 15, 16, 17, 19, 21, 31, 33, 55, 56, 57, 255, 256, 1000, 32767, 32768, 65535, 65536, 70000, 1 << 20} {
		ch := make([]byte, p)
		r.Read(ch)
		one(Creds{"db", "user", Text(p)}, ch[:min(p, 20)])
		one(Creds{"db", "user", "pw"}, ch)
		one(Creds{Text(p), "user", "pw"}, ch[:min(p, 20)])
		one(Creds{"", Text(p), "pw"}, ch[:min(p, 20)])
	}
	for _, v := range []byte{0, 0xFF, '*'} {
		ch := make([]byte, 20)
		for i := range ch {
			ch[i] = v
		}
		one(Creds{"db", "user", "pw"}, ch)
	}
	for _, s := range OddTexts() {
		ch := make([]byte, 20)
		r.Read(ch)
		one(Creds{"db", "user", s}, ch)
		one(Creds{s, s, "pw"}, ch)
	}
	for _, s := range []string{"\x00", "p\x00w", "pässwörd", "\xff\xfe", " "} {
		ch := make([]byte, 20)
		r.Read(ch)
		one(Creds{"db", "user", s}, ch)
		one(Creds{s, s, "pw"}, ch)
	}
}
