//go:build go1.22

package plain

import (
	"bytes"
	"testing"

	z "github.com/renthraysk/xtorm/zzverif"
)

func TestC18(t *testing.T) {
	z.Auth(t, func(c z.Creds, ch []byte, buf []byte) {
		data := []byte(c.D + "\x00" + c.U + "\x00" + c.P)
		z.SameBytes(t, "plain Start "+c.String(), New().Start(buf, c), z.LFrame(4, z.LField(1, []byte("PLAIN")), z.LField(2, data)))
		if !bytes.Equal(buf, bytes.Repeat([]byte{0xEE}, len(buf))) {
			z.Fail(t, "plain changed the bytes in the given buffer")
		}
	})
}
