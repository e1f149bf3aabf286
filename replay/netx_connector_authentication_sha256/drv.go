//go:build go1.22

package sha256

import (
	"bytes"
	csha256 "crypto/sha256"
	"fmt"
	"testing"

	z "github.com/renthraysk/xtorm/zzverif"
)

func TestC18(t *testing.T) {
	z.Auth(t, func(c z.Creds, ch []byte, buf []byte) {
		var data []byte
		data = append(data, c.D...)
		data = append(data, 0)
		data = append(data, c.U...)
		data = append(data, 0)
		a := csha256.Sum256([]byte(c.P))
		b := csha256.Sum256(a[:])
		d := csha256.Sum256(append(append([]byte(nil), b[:]...), ch...))
		for i := range a {
			a[i] ^= d[i]
		}
		data = append(data, fmt.Sprintf("%x", a[:])...)
		z.SameBytes(t, "sha256 Start "+c.String(), New().Start(buf, c), z.LFrame(4, z.LField(1, []byte("SHA256_MEMORY"))))
		z.SameBytes(t, fmt.Sprintf("sha256 Continue %s challenge=%x len(buf)=%d cap(buf)=%d", c, ch, len(buf), cap(buf)), New().Continue(buf, c, ch), z.LFrame(5, z.LField(1, data)))
		if !bytes.Equal(buf, bytes.Repeat([]byte{0xEE}, len(buf))) {
			z.Fail(t, "sha256 changed the bytes in the given buffer")
		}
	})
}
