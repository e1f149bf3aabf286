//go:build go1.22

package connector

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"testing"
	"time"
	"unsafe"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_connection"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_datatypes"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_session"

	z "github.com/renthraysk/xtorm/zzverif"
)

func srv(typ byte, body []byte) []byte {
	return append(append(binary.LittleEndian.AppendUint32(nil, uint32(len(body)+1)), typ), body...)
}

func srvErr(code uint32, fatal bool) []byte {
	e := &mysqlx.Error{Code: proto.Uint32(code), SqlState: proto.String("28000"), Msg: proto.String("no")}
	if fatal {
		e.Severity = mysqlx.Error_FATAL.Enum()
	}
	b, _ := proto.Marshal(e)
	return srv(1, b)
}

func challenge() []byte {
	b, _ := proto.Marshal(&mysqlx_session.AuthenticateContinue{AuthData: []byte("12345678901234567890")})
	return srv(3, b)
}

// tlsRequest is the body of CapabilitiesSet with the capability tls set to true.
func tlsRequest() []byte {
	b, _ := proto.Marshal(&mysqlx_connection.CapabilitiesSet{Capabilities: &mysqlx_connection.Capabilities{Capabilities: []*mysqlx_connection.Capability{{
		Name: proto.String("tls"), Value: &mysqlx_datatypes.Any{Type: mysqlx_datatypes.Any_SCALAR.Enum(), Scalar: &mysqlx_datatypes.Scalar{Type: mysqlx_datatypes.Scalar_V_BOOL.Enum(), VBool: proto.Bool(true)}}}}}})
	return b
}

// script is what the server does: how it answers the capability message, TLS, and the authentication messages in turn.
type script struct {
	caps  string // ok, refuse, close
	tls   string // ok, fail
	auth  []string
	name  string
	saw   []string
	ok    bool // the last authentication message was accepted
	plain []string
	eof   chan bool
	msgs  [][]byte // authentication messages received
	asked [][]byte // capability messages received
}

// drain waits for the peer to close.
func (s *script) drain(c net.Conn) {
	c.(interface{ CloseWrite() error }).CloseWrite()
	if _, err := io.Copy(io.Discard, c); err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return
		}
	}
	s.eof <- true
}

func (s *script) serve(c net.Conn, cert *tls.Config) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(5 * time.Second))
	r := bufio.NewReader(c)
	var w io.Writer = c
	layer := "clear"
	s.saw = append(s.saw, "open")
	n := 0
	for {
		var h [5]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			s.eof <- true
			return
		}
		u := int(binary.LittleEndian.Uint32(h[:]))
		if u < 1 || u > 1<<20 {
			s.drain(c) // not a message: a TLS record after a refused capability
			return
		}
		body := make([]byte, u-1)
		io.ReadFull(r, body)
		switch h[4] {
		case 2:
			s.asked = append(s.asked, body)
			switch s.caps {
			case "refuse":
				w.Write(srvErr(5001, false))
			case "close":
				c.(interface{ CloseWrite() error }).CloseWrite()
			default:
				ok := srv(0, nil)
				if s.caps == "extra" {
					ok = append(ok, srv(11, []byte{9, 9, 9})...) // left in the reader when TLS starts
				}
				if s.caps == "forged" {
					ok = append(ok, srv(4, nil)...) // anyone on the way can write this
				}
				w.Write(ok)
				if s.tls == "fail" {
					w.Write([]byte("this is not TLS, this is not TLS"))
					continue
				}
				t := tls.Server(c, cert)
				if t.Handshake() != nil {
					s.drain(c)
					return
				}
				r, w, layer = bufio.NewReader(t), t, "tls"
			}
		case 4, 5:
			mech := "continue"
			if h[4] == 4 {
				mech = "start"
				if bytes.Contains(body, []byte("PLAIN")) {
					mech = "plain"
				}
			}
			s.saw = append(s.saw, layer+" "+mech)
			s.msgs = append(s.msgs, append(append([]byte(nil), h[:]...), body...))
			a := "close"
			if n < len(s.auth) {
				a = s.auth[n]
			}
			n++
			s.saw = append(s.saw, "-> "+a)
			s.ok = false
			switch a {
			case "ok":
				s.ok = true
				w.Write(srv(4, nil))
			case "noticeok":
				s.ok = true
				w.Write(srv(11, []byte{1, 2, 3}))
				w.Write(srv(4, nil))
			case "denied":
				w.Write(srvErr(1045, false))
			case "fataldenied":
				w.Write(srvErr(1045, true))
			case "other":
				w.Write(srvErr(1040, false))
			case "challenge":
				w.Write(challenge())
			case "garbage":
				w.Write([]byte{0, 0, 0, 0, 9})
			case "cut":
				w.Write([]byte{200, 0, 0, 0, 4, 1})
				c.(interface{ CloseWrite() error }).CloseWrite()
			default:
				c.(interface{ CloseWrite() error }).CloseWrite()
			}
		default:
			s.saw = append(s.saw, fmt.Sprintf("message %d", h[4]))
		}
	}
}

type account struct{ user, pw, db string }

func (a account) UserName() string { return a.user }
func (a account) Password() string { return a.pw }
func (a account) Database() string { return a.db }

type wrapped struct{ net.Conn }

type wrapper struct{ d Dialer }

func (w wrapper) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	c, err := w.d.DialContext(ctx, network, address)
	if err != nil {
		return nil, err
	}
	return wrapped{c}, nil
}

// wrapDialer replaces the connector's dialer, whatever its field is called.
func wrapDialer(c *Connector) {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*Dialer)(nil)).Elem() {
			p := (*Dialer)(unsafe.Pointer(f.UnsafeAddr()))
			*p = wrapper{*p}
		}
	}
}

// expect: how many authentication messages a script gets to see, and whether the connection is established.
func expect(au []string, continuer, secure bool) (int, bool) {
	i := 0
	next := func() string {
		i++
		if i > len(au) {
			return "close"
		}
		return au[i-1]
	}
	good := func(a string) bool { return a == "ok" || a == "noticeok" }
	a := next()
	if a == "challenge" && continuer {
		a = next()
	}
	if (a == "denied" || a == "fataldenied") && secure {
		a = next()
	}
	return i, good(a)
}

func optionTests(t *testing.T) {
	texts := append([]string{"", "x", z.Text(300)}, z.OddTexts()[:20]...)
	for i, a := range texts {
		for j, b := range texts {
			u, p, d := texts[(i+j+1)%len(texts)]+"u", texts[(i+2*j+3)%len(texts)]+"p", texts[(2*i+j+5)%len(texts)]+"d"
			c, err := New(a, b, WithUserPassword("old", "secret"), WithDatabase("olddb"), WithUserPassword(u, p), WithDatabase(d))
			if err != nil || c == nil {
				z.Fail(t, "New(%q, %q) with options returns %v, error %v", a, b, c, err)
			}
			if c.Network() != a || c.String() != b || c.UserName() != u || c.Password() != p || c.Database() != d {
				z.Fail(t, "New(%q, %q, ..., WithUserPassword(%q, %q), WithDatabase(%q)): network %q, address %q, user %q, password %q, database %q", a, b, u, p, d, c.Network(), c.String(), c.UserName(), c.Password(), c.Database())
			}
		}
	}
	if c, err := New("nonet", "nowhere"); err == nil && c != nil {
		z.Guard(t, func() string { return "connecting over a network that does not exist" }, func() {
			if conn, err := c.New(context.Background()); err == nil || conn != nil {
				z.Fail(t, "connecting over a network that does not exist returns connection %v, error %v", conn, err)
			}
		})
	}
	var trace []int
	opt := func(i int, err error) Option { return func(*Connector) error { trace = append(trace, i); return err } }
	e := fmt.Errorf("option")
	if _, err := New("tcp", "a", opt(0, nil), opt(1, nil), opt(2, e), opt(3, fmt.Errorf("later"))); err != e || fmt.Sprint(trace) != "[0 1 2]" {
		z.Fail(t, "New with the third of four options failing returns %v and applies options %v", err, trace)
	}
}

func TestC19(t *testing.T) {
	optionTests(t)
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Skip(err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), DNSNames: []string{"db"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		t.Skip(err)
	}
	crt, _ := x509.ParseCertificate(der)
	roots := x509.NewCertPool()
	roots.AddCert(crt)
	server := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	good := &tls.Config{RootCAs: roots, ServerName: "db"}
	bad := &tls.Config{RootCAs: roots, ServerName: "elsewhere"}
	dir, err := os.MkdirTemp("", "c19")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	mechs := map[string]authentication.Starter{"mysql41": mysql41.New(), "sha256": sha256.New(), "plain": plain.New()}
	auths := [][]string{{"ok"}, {"noticeok"}, {"denied", "ok"}, {"denied", "denied"}, {"denied", "other"}, {"denied", "close"}, {"denied", "challenge", "ok"}, {"fataldenied", "ok"}, {"other", "ok"}, {"garbage"}, {"cut"}, {"close"},
		{"challenge", "ok"}, {"challenge", "noticeok"}, {"challenge", "denied", "ok"}, {"challenge", "denied", "denied"}, {"challenge", "other", "ok"}, {"challenge", "challenge", "ok"}, {"challenge", "close"}, {"challenge", "cut"}}
	n := 0
	for _, network := range []string{"tcp", "unix"} {
		addr := "127.0.0.1:0"
		if network == "unix" {
			addr = filepath.Join(dir, "s")
		}
		ln, err := net.Listen(network, addr)
		if err != nil {
			t.Skip(err)
		}
		defer ln.Close()
		for _, tc := range []string{"", "good", "bad", "tlsfail", "refuse", "close", "extra", "forged", "noname", "wrapped"} {
			for mn, mech := range mechs {
				for _, au := range auths {
					if (tc == "bad" || tc == "tlsfail" || tc == "refuse" || tc == "close") && (len(au) != 1 || network == "unix") {
						continue
					}
					n++
					s := &script{caps: "ok", tls: "ok", auth: au, eof: make(chan bool, 1)}
					opts := []Option{WithDatabase("db"), WithUserPassword("user", "pw"), WithAuthentication(mech)}
					switch tc {
					case "":
					case "bad":
						opts = append(opts, WithTLSConfig(bad))
					default:
						opts = append(opts, WithTLSConfig(good))
						switch tc {
						case "tlsfail":
							s.tls = "fail"
						case "refuse", "close", "extra", "forged":
							s.caps = tc
						case "noname":
							opts = append(opts, WithTLSConfig(&tls.Config{InsecureSkipVerify: true}))
						case "wrapped":
							opts = append(opts, WithTLSConfig(nil))
						}
					}
					cn, err := New(network, ln.Addr().String(), opts...)
					if err != nil {
						z.Fail(t, "New of a connector fails: %v", err)
					}
					if tc == "wrapped" {
						// a connection that is neither TCP, unix nor TLS
						wrapDialer(cn)
					}
					go func() {
						c, err := ln.Accept()
						if err == nil {
							s.serve(c, server)
						}
					}()
					ctx, cancel := context.WithTimeout(context.Background(), 4*time.Second)
					what := func() string {
						return fmt.Sprintf("connecting over %s, TLS %q, mechanism %s, server answers %v: server saw %v", network, tc, mn, au, s.saw)
					}
					var nerr error
					var got interface{ Close() error }
					z.Guard(t, what, func() {
						c, e := cn.New(ctx)
						nerr = e
						if c != nil {
							got = c
						}
					})
					if nerr == nil {
						if got == nil {
							z.Fail(t, "%s; no connection and no error", what())
						}
						if !s.ok {
							z.Fail(t, "%s; a connection is handed out that the server did not accept", what())
						}
						select {
						case <-s.eof:
							z.Fail(t, "%s; the connection handed out is closed", what())
						default:
						}
						got.Close()
					} else if s.ok && ctx.Err() == nil {
						z.Fail(t, "%s; the server accepted, the error is %v", what(), nerr)
					} else if got != nil {
						z.Fail(t, "%s; a connection is returned with error %v", what(), nerr)
					}
					select {
					case <-s.eof:
					case <-time.After(2 * time.Second):
						z.Fail(t, "%s; the connection is left open (error %v)", what(), nerr)
					}
					secure := network == "tcp" && tc != "" && tc != "wrapped"
					if len(s.asked) > 0 && !secure {
						z.Fail(t, "%s; TLS is asked for without TCP and TLS configured", what())
					}
					for _, m := range s.asked {
						if !bytes.Equal(m, tlsRequest()) {
							z.Fail(t, "%s; the request for TLS is % x instead of % x", what(), m, tlsRequest())
						}
					}
					if ctx.Err() == nil && (!secure || tc == "good" || tc == "noname") {
						_, can := mech.(authentication.StartContinuer)
						msgs, ok := expect(au, can, secure || network == "unix" && tc != "wrapped")
						if len(s.msgs) != msgs {
							z.Fail(t, "%s; the client sends %d authentication messages instead of %d (error %v)", what(), len(s.msgs), msgs, nerr)
						}
						if ok != (nerr == nil) {
							z.Fail(t, "%s; the error is %v", what(), nerr)
						}
					}
					creds := account{"user", "pw", "db"}
					for i, m := range s.msgs {
						// what the mechanism makes of the configured account, or the plain one after a refusal
						var want []byte
						switch {
						case i == 0:
							want = mech.Start(nil, creds)
						case au[i-1] == "challenge" && i == 1:
							if c, ok := mech.(authentication.StartContinuer); ok {
								want = c.Continue(nil, creds, []byte("12345678901234567890"))
							}
						default:
							want = plain.New().Start(nil, creds)
						}
						if !bytes.Equal(m, want) {
							z.Fail(t, "%s; authentication message %d is % x, the configured mechanism and account make % x", what(), i, m, want)
						}
					}
					last := ""
					for _, e := range s.saw {
						if tc != "" && tc != "wrapped" && network == "tcp" && len(e) > 5 && e[:5] == "clear" {
							z.Fail(t, "%s; authentication in the clear although TLS is configured", what())
						}
						if mn != "plain" && len(e) > 5 && e[len(e)-5:] == "plain" {
							if last != "-> denied" && last != "-> fataldenied" || (network == "tcp" || tc == "wrapped") && e != "tls plain" {
								z.Fail(t, "%s; the password is sent in plain form", what())
							}
						}
						last = e
					}
					cancel()
				}
			}
		}
	}
}
