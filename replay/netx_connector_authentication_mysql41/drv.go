//go:build go1.22

package mysql41

import (
	"bytes"
	csha1 "crypto/sha1"
	"fmt"
	"testing"

	z "github.com/renthraysk/xtorm/zzverif"
)

func TestC18(t *testing.T) {
	z.Auth(t, func(c z.Creds, ch []byte, buf []byte) {
		var data []byte
		data = append(data, c.D...)
		data = append(data, 0)
		data = append(data, c.U...)
		data = append(data, 0)
		if c.P != "" {
			a := csha1.Sum([]byte(c.P))
			b := csha1.Sum(a[:])
			d := csha1.Sum(append(append([]byte(nil), ch...), b[:]...))
			for i := range a {
				a[i] ^= d[i]
			}
			data = append(data, fmt.Sprintf("*%x", a[:])...)
		}
		z.SameBytes(t, "mysql41 Start "+c.String(), New().Start(buf, c), z.LFrame(4, z.LField(1, []byte("MYSQL41"))))
		z.SameBytes(t, fmt.Sprintf("mysql41 Continue %s challenge=%x len(buf)=%d cap(buf)=%d", c, ch, len(buf), cap(buf)), New().Continue(buf, c, ch), z.LFrame(5, z.LField(1, data)))
		if !bytes.Equal(buf, bytes.Repeat([]byte{0xEE}, len(buf))) {
			z.Fail(t, "mysql41 changed the bytes in the given buffer")
		}
	})
}
