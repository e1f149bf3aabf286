From 8e7f918f132a9589e861bbc882c09c96b6bd7d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:56 +0000
Subject: [PATCH 1/7] fix: Regexp emits the operator name "regexp"

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 1a08f3a..9ad9225 100644
--- a/expr.go
+++ b/expr.go
@@ -276,7 +276,7 @@ func IsNot(a, b interface{}) exprFunc {
 
 func Regexp(a, b interface{}) exprFunc {
 	return func(p []byte, tag uint8) ([]byte, error) {
-		return xproto.AppendExprOperatorV(p, tag, "rexgexp", a, b)
+		return xproto.AppendExprOperatorV(p, tag, "regexp", a, b)
 	}
 }
 
-- 
2.43.0


From 2037a52ed717e4759015f047a20ce1c59f4bcbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:56 +0000
Subject: [PATCH 2/7] fix: AppendExprVariable writes the expression length as a
 varint

Names of 124 bytes or more were given a truncated single byte length.
---
 xproto/expr.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/xproto/expr.go b/xproto/expr.go
index 50e8969..eed6566 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -423,13 +423,19 @@ func AppendExprPlaceholder(p []byte, tag uint8, pos uint32) ([]byte, error) {
 }
 
 func AppendExprVariable(p []byte, tag uint8, name string) ([]byte, error) {
-	x := len(name)
-	n := sizeVarint(uint(x))
-	p = append(p, tag<<3|wireBytes, 3+byte(n+x),
-		tagExprType<<3|wireVarint, byte(mysqlx_expr.Expr_VARIABLE),
-		tagExprVariable<<3|wireBytes, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
-		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56), 1)
-	n += len(p) - binary.MaxVarintLen64
-	p[n-1] &= 0x7F
-	return append(p[:n], name...), nil
+	n := len(name)
+	n0 := 3 + sizeVarint(uint(n)) + n
+	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
+
+	b[0] = tag<<3 | wireBytes
+	i := 1 + putUvarint(b[1:], uint64(n0))
+	b[i] = tagExprType<<3 | wireVarint
+	i++
+	b[i] = byte(mysqlx_expr.Expr_VARIABLE)
+	i++
+	b[i] = tagExprVariable<<3 | wireBytes
+	i++
+	i += putUvarint(b[i:], uint64(n))
+	copy(b[i:], name)
+	return p, nil
 }
-- 
2.43.0


From b03e93e258ae7cc73e4cc4d8c51762691b309e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:10 +0000
Subject: [PATCH 3/7] fix: AppendDuration of the most negative duration

Negating it overflowed, which gave a huge hour count and an out of range index.
---
 xproto/scalar.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xproto/scalar.go b/xproto/scalar.go
index fba59b0..b125f20 100644
--- a/xproto/scalar.go
+++ b/xproto/scalar.go
@@ -45,11 +45,12 @@ const smallsString = "00010203040506070809" +
 	"50515253545556575859"
 
 func AppendDuration(p []byte, d time.Duration) []byte {
+	u := uint64(d)
 	if d < 0 {
-		d = -d
+		u = -u // unsigned, so the most negative duration is handled too
 		p = append(p, '-')
 	}
-	i := 2 * (uint(d/time.Minute) % 60)
-	j := 2 * (uint(d/time.Second) % 60)
-	return append(strconv.AppendUint(p, uint64(d/time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
+	i := 2 * (u / uint64(time.Minute) % 60)
+	j := 2 * (u / uint64(time.Second) % 60)
+	return append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
 }
-- 
2.43.0


From 10279f61701505080fb6743be946f55676165be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:10 +0000
Subject: [PATCH 4/7] fix: close the connection when switching to TLS fails

It was leaked when the capability could not be encoded or sent.
---
 netx/connector/connector.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netx/connector/connector.go b/netx/connector/connector.go
index 7fdaf75..267b20b 100644
--- a/netx/connector/connector.go
+++ b/netx/connector/connector.go
@@ -67,10 +67,12 @@ func (c *Connector) New(ctx context.Context) (netx.Conn, error) {
 	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
 		b, err := xproto.CapabilitySet("tls", true)
 		if err != nil {
+			conn.Close()
 			return nil, err
 		}
 		// @TODO response test
 		if _, err := conn.Send(ctx, b); err != nil {
+			conn.Close()
 			return nil, err
 		}
 		tlsConn := tls.Client(netConn, c.tlsConfig)
-- 
2.43.0


From 0a82abcd521e90b0a0682d3ead5f64582878a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:10 +0000
Subject: [PATCH 5/7] fix: do not patch the message length after a failed
 encoder

Delete, InsertF and UpdateF indexed the buffer returned along with an
error, which panics when the failing encoder returned a nil buffer.
---
 crud.go          | 10 ++++++++--
 xproto/xproto.go |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crud.go b/crud.go
index cf730fb..199a191 100644
--- a/crud.go
+++ b/crud.go
@@ -32,9 +32,12 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
 	b.disabled = true
 	f(i)
+	b.disabled = false
 	b.buf, b.err = i.buf, i.err
+	if b.err != nil {
+		return
+	}
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
-	b.disabled = false
 }
 
 type Update struct {
@@ -60,7 +63,10 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	u.buf, u.err = xproto.Update(b.buf, name, criteria)
 	b.disabled = true
 	f(&u)
+	b.disabled = false
 	b.buf, b.err = u.buf, u.err
+	if b.err != nil {
+		return
+	}
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
-	b.disabled = false
 }
diff --git a/xproto/xproto.go b/xproto/xproto.go
index b9c182d..b04399d 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -70,7 +70,10 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 	copy(b[i:], name)
 	if criteria != nil {
 		p, err = criteria(p, tagDeleteCriteria)
+		if err != nil {
+			return p, err
+		}
 	}
 	binary.LittleEndian.PutUint32(p[s:], uint32(len(p)-s-4))
-	return p, err
+	return p, nil
 }
-- 
2.43.0


From 550068579712f2bdab29aead5b7708e705a1f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:10 +0000
Subject: [PATCH 6/7] fix: an error returned by a callback fails the unit of
 work

It was ignored, so a transaction whose callback failed was still committed.
---
 builder.go | 4 +++-
 crud.go    | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/builder.go b/builder.go
index e91f6e4..236da0a 100644
--- a/builder.go
+++ b/builder.go
@@ -36,7 +36,9 @@ func (b *Builder) call(f func(b *Builder) error) {
 		disabled: false,
 	}
 	b.disabled = true
-	f(&child)
+	if err := f(&child); err != nil && child.err == nil {
+		child.err = err
+	}
 	b.buf = child.buf
 	b.err = child.err
 	b.disabled = false
diff --git a/crud.go b/crud.go
index 199a191..0ddfee4 100644
--- a/crud.go
+++ b/crud.go
@@ -31,7 +31,9 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	n := len(b.buf)
 	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
 	b.disabled = true
-	f(i)
+	if err := f(i); err != nil && i.err == nil {
+		i.err = err
+	}
 	b.disabled = false
 	b.buf, b.err = i.buf, i.err
 	if b.err != nil {
@@ -62,7 +64,9 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	var u Update
 	u.buf, u.err = xproto.Update(b.buf, name, criteria)
 	b.disabled = true
-	f(&u)
+	if err := f(&u); err != nil && u.err == nil {
+		u.err = err
+	}
 	b.disabled = false
 	b.buf, b.err = u.buf, u.err
 	if b.err != nil {
-- 
2.43.0


From eb20ca5fbe6e8075b9a5738d58cc87f77c04db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:47 +0000
Subject: [PATCH 7/7] fix: closing the pool twice, or while sends are in flight

Both panicked, on the second close of the channel and on returning a
connection to the closed channel.
---
 netx/pool/fifoch/fifoch.go | 46 +++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 97dda79..a27bc5f 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -12,6 +12,7 @@ import (
 
 type poolCh struct {
 	mu        sync.Mutex
+	closed    bool // guarded by mu
 	ch        chan netx.Conn
 	connector netx.Connector
 }
@@ -26,15 +27,15 @@ func New(connector netx.Connector, size int) *poolCh {
 
 func (p *poolCh) Close(ctx context.Context) error {
 
-	ch := p.getCh()
+	// ch stays open, sends in flight may still be using it.
+	p.mu.Lock()
+	p.closed = true
+	ch := p.ch
+	p.mu.Unlock()
 
-	defer close(ch)
 	for {
 		select {
-		case conn, ok := <-ch:
-			if !ok {
-				return nil
-			}
+		case conn := <-ch:
 			conn.Close()
 		case <-ctx.Done():
 			return ctx.Err()
@@ -44,25 +45,43 @@ func (p *poolCh) Close(ctx context.Context) error {
 	}
 }
 
+// getCh returns the channel of idle connections, or nil if the pool is closed.
 func (p *poolCh) getCh() chan netx.Conn {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	if p.closed {
+		return nil
+	}
 	return p.ch
 }
 
+// put keeps conn for reuse, and reports false if the pool is full or closed.
+func (p *poolCh) put(conn netx.Conn) bool {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.closed {
+		return false
+	}
+	select {
+	case p.ch <- conn:
+		return true
+	default:
+		return false
+	}
+}
+
 func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 
 	var (
 		conn netx.Conn
-		ok   bool
 		err  error
 	)
 	ch := p.getCh()
+	if ch == nil {
+		return nil, pool.ErrPoolClosed
+	}
 	select {
-	case conn, ok = <-ch:
-		if !ok {
-			return nil, pool.ErrPoolClosed
-		}
+	case conn = <-ch:
 
 	case <-ctx.Done():
 		return nil, ctx.Err()
@@ -79,10 +98,7 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		return r, err
 	}
 
-	ch = p.getCh()
-	select {
-	case ch <- conn:
-	default:
+	if !p.put(conn) {
 		conn.Close()
 	}
 	return r, nil
-- 
2.43.0

