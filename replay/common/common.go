//go:build go1.22

// Package zzverif holds what the replay drivers share. It is laid into the module by an overlay.
package zzverif

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing"
)

// Hints are numbers from the verifier's counterexamples.
func Hints() []uint64 {
	var out []uint64
	for _, s := range strings.Split(os.Getenv("VERIF_HINTS"), ",") {
		if u, err := strconv.ParseUint(s, 10, 64); err == nil {
			out = append(out, u)
		}
	}
	return out
}

func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func Rand() *rand.Rand { return rand.New(rand.NewSource(Seed() + 1)) }

// Ints are interesting 64-bit patterns.
func Ints() []uint64 {
	m := map[uint64]bool{}
	var out []uint64
	add := func(u uint64) {
		if !m[u] {
			m[u] = true
			out = append(out, u)
		}
	}
	for _, h := range Hints() {
		add(h)
		add(-h)
	}
	for i := uint64(0); i < 600; i++ {
		add(i)
		add(-i)
	}
	for i := 0; i < 64; i++ {
		for d := uint64(0); d < 5; d++ {
			add(1<<i + d - 2)
			add(-(1<<i + d - 2))
		}
	}
	r := Rand()
	for i := 0; i < 2000; i++ {
		add(r.Uint64() >> uint(r.Intn(64)))
	}
	return out
}

// Lens stands for texts (see Text): lengths, and negative numbers for texts with unusual contents.
func Lens() []int {
	m := map[int]bool{}
	var out []int
	add := func(n int) {
		if n >= 0 && n <= 2200000 && !m[n] {
			m[n] = true
			out = append(out, n)
		}
	}
	for i := 0; i <= 300; i++ {
		add(i)
	}
	for _, b := range []int{128, 256, 512, 1024, 4096, 8192, 16384, 32768, 65536} {
		for d := -24; d <= 4; d++ {
			add(b + d)
		}
	}
	for _, h := range Hints() {
		if h < 2200000 {
			add(int(h))
		}
	}
	for d := -12; d <= 2; d++ {
		add(2097152 + d)
	}
	for i := range OddTexts() {
		out = append(out, -1-i)
	}
	return out
}

// SmallLens leaves out the big ones.
func SmallLens() []int {
	var out []int
	for _, n := range Lens() {
		if n >= 0 && n < 70000 && (n < 300 || n > 16350 && n < 16400) {
			out = append(out, n)
		}
	}
	return out
}

func Text(n int) string {
	if n < 0 {
		return OddTexts()[-1-n]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('!' + i%89)
	}
	return string(b)
}

// OddTexts are texts with unusual contents.
func OddTexts() []string { return odd }

var odd = oddTexts()

func oddTexts() []string {
	out := []string{"\x00", "a\x00b", "\xff", "\xff\xfe\x80", "h\u00e9llo", "\u65e5\u672c\u8a9e", "'", "\"", "\\", "\n", "\r\n", "\t", " ", " lead", "trail ", "%", "%s", ";", "a;", "SELECT 1;", "`x", "x`", "'x'", "\"x\"", "(x)", "-- x", "/*x*/", "$", "*", "a b", " a ", "a=b", "@id", "@@id", "x.*", "tls", "PLAIN", "MYSQL41", "AS", "?", "@", "`x`", "NULL", "null", "0", "1", "-1", "true", "{}", "[]", "UPPER", "MiXed", "a.b", "a,b", "\u200b", "\xed\xa0\x80"}
	for i := 0; i < 256; i++ {
		out = append(out, string([]byte{byte(i)}), string([]byte{'x', byte(i), 'y'}))
	}
	z := make([]byte, 300)
	out = append(out, string(z), string(z[:127]), string(z[:128]))
	for i := range z {
		z[i] = 0xFF
	}
	return append(out, string(z), string(z[:127]), string(z[:128]))
}

// Bufs are buffers to append to: contents, and spare capacity with old bytes in it.
func Bufs() [][]byte {
	mk := func(n, c int) []byte {
		b := make([]byte, c)
		for i := range b {
			b[i] = byte(0xA5 + i*7)
		}
		return b[:n]
	}
	return [][]byte{nil, mk(3, 3), mk(5, 4096), mk(0, 64), mk(130, 160), mk(7, 20), mk(9, 5<<20)}
}

func Buf(i int) []byte {
	bs := []func() []byte{
		func() []byte { return nil },
		func() []byte { return dirty(3, 3) },
		func() []byte { return dirty(5, 4096) },
		func() []byte { return dirty(130, 160) },
		func() []byte { return dirty(7, 20) },
		func() []byte { return dirty(0, 70000) },
	}
	return bs[i%len(bs)]()
}

func dirty(n, c int) []byte {
	b := make([]byte, c)
	for i := range b {
		b[i] = byte(0xA5 + i*7)
	}
	return b[:n]
}

// Kept reports whether out begins with in.
func Kept(in, out []byte) bool { return len(out) >= len(in) && string(out[:len(in)]) == string(in) }

var lenRe = regexp.MustCompile(`of length -[0-9]+`)

func Fail(t *testing.T, f string, a ...any) {
	t.Helper()
	s := lenRe.ReplaceAllStringFunc(fmt.Sprintf(f, a...), func(l string) string {
		n, _ := strconv.Atoi(l[len("of length "):])
		if -1-n >= len(odd) {
			return l
		}
		return fmt.Sprintf("%q", Text(n))
	})
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	t.Fatalf("FAILING-INPUT: %s", strings.ReplaceAll(s, "\n", " "))
}

// Guard runs f and reports a panic as a failing input.
func Guard(t *testing.T, desc func() string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			Fail(t, "%s: panics: %v", desc(), r)
		}
	}()
	f()
}

type Frame struct {
	Type byte
	Body []byte
}

// Frames splits a buffer into messages.
func Frames(b []byte) ([]Frame, error) {
	var out []Frame
	for i := 0; i < len(b); {
		if len(b)-i < 5 {
			return out, fmt.Errorf("%d bytes left where a message should start (offset %d)", len(b)-i, i)
		}
		n := int(binary.LittleEndian.Uint32(b[i:]))
		if n < 1 || i+4+n > len(b) {
			return out, fmt.Errorf("message at offset %d says it is %d bytes long, %d are left", i, n, len(b)-i-4)
		}
		out = append(out, Frame{b[i+4], b[i+5 : i+4+n]})
		i += 4 + n
	}
	return out, nil
}

// Clip shortens a value for printing.
func Clip(v any) string {
	s := fmt.Sprintf("%T(%v)", v, v)
	if x, ok := v.(string); ok && len(x) > 60 {
		return fmt.Sprintf("string of length %d", len(x))
	}
	if x, ok := v.([]byte); ok && len(x) > 30 {
		return fmt.Sprintf("[]byte of length %d", len(x))
	}
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}
