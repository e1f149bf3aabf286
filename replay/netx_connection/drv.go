//go:build go1.22

package connection

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_resultset"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_session"

	z "github.com/renthraysk/xtorm/zzverif"
)

// fakeConn is a server: it answers with a fixed stream and records what is done to the connection.
type fakeConn struct {
	net.Conn
	in       []byte
	chunk    int
	end      error
	log      []string
	written  [][]byte
	deadline time.Time
	dlErr    error
	wrErr    error
	short    bool
}

func (f *fakeConn) Read(b []byte) (int, error) {
	f.log = append(f.log, "read")
	if len(f.in) == 0 {
		return 0, f.end
	}
	n := len(b)
	if f.chunk > 0 && n > f.chunk {
		n = f.chunk
	}
	n = copy(b[:n], f.in)
	f.in = f.in[n:]
	return n, nil
}
func (f *fakeConn) Write(b []byte) (int, error) {
	f.log = append(f.log, "write")
	f.written = append(f.written, append([]byte(nil), b...))
	if f.wrErr != nil {
		return len(b) / 2, f.wrErr
	}
	return len(b), nil
}
func (f *fakeConn) SetDeadline(t time.Time) error {
	f.log = append(f.log, "deadline")
	f.deadline = t
	return f.dlErr
}
func (f *fakeConn) SetReadDeadline(t time.Time) error {
	f.log = append(f.log, "rdeadline")
	return f.dlErr
}
func (f *fakeConn) SetWriteDeadline(t time.Time) error {
	f.log = append(f.log, "wdeadline")
	return f.dlErr
}
func (f *fakeConn) Close() error { f.log = append(f.log, "close"); return nil }

func msg(typ byte, body []byte) []byte {
	b := append(binary.LittleEndian.AppendUint32(nil, uint32(len(body)+1)), typ)
	return append(b, body...)
}

func pb(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

func errBody(r *rand.Rand, sz int) []byte {
	e := &mysqlx.Error{Code: proto.Uint32(r.Uint32()), SqlState: proto.String(fmt.Sprintf("%05d", r.Intn(100000))), Msg: proto.String(z.Text(sz))}
	switch r.Intn(6) {
	case 0:
		e.Code = proto.Uint32(0)
	case 1:
		e.Code = proto.Uint32([]uint32{1, 1044, 1045, 1062, 1205, 1213, 5000, 5012, 65535, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(12)])
	}
	switch r.Intn(5) {
	case 0:
		e.SqlState = proto.String("")
	case 1:
		e.SqlState = proto.String([]string{"HY000", "28000", "00000", "40001", "42000", "08S01"}[r.Intn(6)])
	}
	switch r.Intn(3) {
	case 0:
		e.Severity = mysqlx.Error_ERROR.Enum()
	case 1:
		e.Severity = mysqlx.Error_FATAL.Enum()
	}
	return pb(e)
}

// want is what reading the answer at the start of s has to give.
type want struct {
	kind string // ok, err, challenge, fail
	e    *mysqlx.Error
	hard bool
	data []byte
	rest []byte
	pos  bool // the position afterwards is specified
}

func (w want) String() string {
	s := w.kind
	if w.e != nil {
		s += fmt.Sprintf(" (severity %v code %d, as error: %v)", w.e.GetSeverity(), w.e.GetCode(), w.hard)
	}
	if w.data != nil {
		s += fmt.Sprintf(" %x", w.data)
	}
	return s
}

func expect(s []byte, ct mysqlx.ClientMessages_Type) want {
	for {
		if len(s) < 5 {
			return want{kind: "fail"}
		}
		u := int(binary.LittleEndian.Uint32(s))
		if u < 1 || len(s) < 4+u {
			return want{kind: "fail"}
		}
		body, rest := s[5:4+u], s[4+u:]
		switch mysqlx.ServerMessages_Type(s[4]) {
		case mysqlx.ServerMessages_OK, mysqlx.ServerMessages_SESS_AUTHENTICATE_OK, mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK:
			return want{kind: "ok", rest: rest, pos: true}
		case mysqlx.ServerMessages_RESULTSET_COLUMN_META_DATA:
			if proto.Unmarshal(body, new(mysqlx_resultset.ColumnMetaData)) != nil {
				return want{kind: "fail"}
			}
		case mysqlx.ServerMessages_ERROR:
			e := new(mysqlx.Error)
			if proto.Unmarshal(body, e) != nil {
				return want{kind: "fail"}
			}
			hard := e.GetSeverity() == mysqlx.Error_FATAL || ct == mysqlx.ClientMessages_SESS_RESET || ct == mysqlx.ClientMessages_SESS_AUTHENTICATE_START || ct == mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE
			return want{kind: "err", e: e, hard: hard, rest: rest, pos: true}
		case mysqlx.ServerMessages_SESS_AUTHENTICATE_CONTINUE:
			if ct != mysqlx.ClientMessages_SESS_AUTHENTICATE_START {
				return want{kind: "fail", rest: rest, pos: true}
			}
			ac := new(mysqlx_session.AuthenticateContinue)
			if proto.Unmarshal(body, ac) != nil {
				return want{kind: "fail"}
			}
			return want{kind: "challenge", data: ac.AuthData, rest: rest, pos: true}
		}
		s = rest
	}
}

func sameErr(v interface{}, e *mysqlx.Error) bool {
	m, ok := v.(*MySqlXError)
	return ok && m != nil && m.Severity == e.GetSeverity() && m.Code == e.GetCode() && m.SqlState == e.GetSqlState() && m.Msg == e.GetMsg()
}

func compare(w want, r netx.Response, err error) string {
	var x *MySqlXError
	var ac *ErrRequireAuthenticateContinue
	got := fmt.Sprintf("gave response %s, error %s", z.Clip(fmt.Sprintf("%v", r)), z.Clip(fmt.Sprintf("%v", err)))
	switch w.kind {
	case "ok":
		if r != nil || err != nil {
			return got
		}
	case "fail":
		if r != nil || err == nil || errors.As(err, &x) || errors.As(err, &ac) {
			return got
		}
	case "challenge":
		if r != nil || !errors.As(err, &ac) || !bytes.Equal(ac.AuthData, w.data) {
			return got
		}
	case "err":
		if !sameErr(r, w.e) {
			return got
		}
		if w.hard != (err != nil) || w.hard && !sameErr(err, w.e) {
			return got
		}
	}
	return ""
}

var cts = []mysqlx.ClientMessages_Type{2, 4, 5, 6, 12, 18, 19, 20, 24, 25, 40, 41, 42}

// filler is a message that does not end the answer.
func filler(r *rand.Rand, sz int) []byte {
	switch r.Intn(5) {
	case 0:
		m := &mysqlx_resultset.ColumnMetaData{Type: mysqlx_resultset.ColumnMetaData_SINT.Enum(), Name: []byte(z.Text(sz))}
		return msg(12, pb(m))
	case 1:
		return msg(11, []byte(z.Text(sz)))
	case 2:
		return msg(13, []byte(z.Text(sz)))
	case 3:
		return msg(14, nil)
	}
	return msg([]byte{2, 15, 16, 18, 19, 77, 200, 13}[r.Intn(8)], []byte(z.Text(sz)))
}

func final(r *rand.Rand, sz int) []byte {
	switch r.Intn(12) {
	case 0, 1, 2:
		return msg([]byte{0, 4, 17}[r.Intn(3)], []byte(z.Text(sz%7)))
	case 3, 4, 5, 6:
		return msg(1, errBody(r, sz))
	case 7, 8:
		return msg(3, pb(&mysqlx_session.AuthenticateContinue{AuthData: []byte(z.Text(sz))}))
	case 9:
		return msg([]byte{1, 3, 12}[r.Intn(3)], nil)
	case 10:
		return msg([]byte{1, 3, 12}[r.Intn(3)], []byte{0x08, 0x80})
	}
	return []byte{0, 0, 0, 0, byte(r.Intn(20))}
}

var sizes = []int{0, 1, 3, 20, 100, 4085, 4086, 4090, 4091, 4092, 4095, 4096, 4097, 4100, 5000, 8192, 40000, 70000}

func answers(r *rand.Rand, n int) []byte {
	var s []byte
	for i := 0; i < n; i++ {
		for k := r.Intn(5); k > 0; k-- {
			s = append(s, filler(r, sizes[r.Intn(len(sizes))])...)
		}
		s = append(s, final(r, sizes[r.Intn(len(sizes))])...)
	}
	return s
}

func describe(s []byte) string {
	out := ""
	for len(s) >= 5 {
		u := int(binary.LittleEndian.Uint32(s))
		out += fmt.Sprintf(" [type %d length %d]", s[4], u)
		if u < 1 || 4+u > len(s) {
			return out + " (cut)"
		}
		s = s[4+u:]
	}
	return out + fmt.Sprintf(" +%d bytes", len(s))
}

func TestC16(t *testing.T) {
	r := z.Rand()
	stop := time.Now().Add(20 * time.Second)
	for n := 0; n < 6000 && time.Now().Before(stop); n++ {
		s := answers(r, 1+r.Intn(4))
		if r.Intn(4) == 0 {
			s = s[:r.Intn(len(s)+1)]
		}
		f := &fakeConn{in: s, chunk: []int{0, 1, 7, 1000}[r.Intn(4)], end: []error{io.EOF, errors.New("connection broken")}[r.Intn(2)]}
		if f.chunk == 1 && len(s) > 20000 {
			f.chunk = 0
		}
		c := New(f)
		at := s
		for k := 0; k < 6; k++ {
			ct := cts[r.Intn(len(cts))]
			if r.Intn(3) == 0 {
				ct = 4
			}
			w := expect(at, ct)
			what := func() string {
				return fmt.Sprintf("Read for client message %d, read %d of stream%s", ct, k+1, describe(s))
			}
			var rsp netx.Response
			var err error
			z.Guard(t, what, func() { rsp, err = c.Read(context.Background(), ct) })
			if d := compare(w, rsp, err); d != "" {
				z.Fail(t, "%s %s, expected %s", what(), d, w)
			}
			if !w.pos {
				break
			}
			at = w.rest
		}
	}
}

func unit(r *rand.Rand, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		sz := sizes[r.Intn(7)]
		if r.Intn(150) == 0 {
			// lengths that need all their bytes
			sz = []int{65534, 65535, 65536, 70000, 1 << 20, 1<<24 + 3}[r.Intn(6)]
		}
		b = append(b, msg(byte(cts[r.Intn(len(cts))]), []byte(z.Text(sz)))...)
	}
	return b
}

func TestC17(t *testing.T) {
	r := z.Rand()
	stop := time.Now().Add(20 * time.Second)
	for n := 0; n < 6000 && time.Now().Before(stop); n++ {
		one := r.Intn(3) == 0
		k := 1 + r.Intn(40)
		if r.Intn(2) == 0 {
			k = 1 + r.Intn(4)
		}
		if one {
			k = 1
		}
		b := unit(r, k)
		var s []byte
		for i := 0; i < k+1; i++ {
			if r.Intn(8) == 0 {
				s = append(s, final(r, 10)...)
			} else {
				s = append(s, [][]byte{msg(0, nil), msg(17, nil), filler(r, 9), msg(1, pb(&mysqlx.Error{Code: proto.Uint32(r.Uint32()), SqlState: proto.String("HY000"), Msg: proto.String("m")}))}[r.Intn(4)]...)
			}
		}
		f := &fakeConn{in: s, end: io.EOF}
		switch r.Intn(10) {
		case 0:
			f.dlErr = errors.New("no deadline")
		case 1:
			f.wrErr = errors.New("no write")
		}
		ctx := context.Background()
		var dl time.Time
		if r.Intn(2) == 0 {
			dl = time.Now().Add(time.Hour)
			c2, cancel := context.WithDeadline(ctx, dl)
			defer cancel()
			ctx = c2
		}
		var types []byte
		for i := 0; i < len(b); i += 4 + int(binary.LittleEndian.Uint32(b[i:])) {
			types = append(types, b[i+4])
		}
		name := "Send"
		if one {
			name = "WriteOne"
		}
		what := func() string {
			return fmt.Sprintf("%s of messages of types %v, server answers%s, deadline error %v, write error %v", name, types, describe(s), f.dlErr, f.wrErr)
		}
		var rs []netx.Response
		var err error
		c := New(f)
		sent := append([]byte(nil), b...)
		z.Guard(t, what, func() {
			if one {
				var r1 netx.Response
				r1, err = c.WriteOne(ctx, b)
				rs = []netx.Response{r1}
			} else {
				rs, err = c.Send(ctx, b)
			}
		})
		if len(f.log) == 0 || f.log[0] != "deadline" || !f.deadline.Equal(dl) {
			z.Fail(t, "%s does not set the context's deadline first: %v", what(), f.log)
		}
		if f.dlErr != nil || f.wrErr != nil {
			if err == nil || f.dlErr != nil && len(f.log) != 1 || f.wrErr != nil && len(f.log) != 2 {
				z.Fail(t, "%s goes on: error %v, operations %v", what(), err, f.log)
			}
			continue
		}
		if len(f.written) != 1 || !bytes.Equal(f.written[0], sent) || f.log[1] != "write" {
			z.Fail(t, "%s does not write the unit in one write first: %d writes", what(), len(f.written))
		}
		at := s
		var ws []want
		failed := false
		for _, ty := range types {
			w := expect(at, mysqlx.ClientMessages_Type(ty))
			ws = append(ws, w)
			if w.kind == "fail" || w.kind == "challenge" || w.hard {
				failed = true
				break
			}
			at = w.rest
		}
		if len(rs) != len(ws) {
			z.Fail(t, "%s gave %d responses, expected %d", what(), len(rs), len(ws))
		}
		if failed != (err != nil) {
			z.Fail(t, "%s gave error %v", what(), err)
		}
		for i, w := range ws {
			var e error
			if i == len(ws)-1 {
				e = err
			}
			if d := compare(w, rs[i], e); d != "" {
				z.Fail(t, "%s: response %d %s, expected %s", what(), i+1, d, w)
			}
		}
	}
}
