R={}
P='netx/pool/fifoch/fifoch.go'
R['pool-get-helper']=[(P,'''	var (
		conn netx.Conn
		err  error
	)
	ch := p.getCh()
	if ch == nil {
		return nil, pool.ErrPoolClosed
	}
	select {
	case conn = <-ch:

	case <-ctx.Done():
		return nil, ctx.Err()

	default:
		if conn, err = p.connector.New(ctx); err != nil {
			return nil, err
		}
	}

	r, err''','''	conn, err := p.get(ctx)
	if err != nil {
		return nil, err
	}
	r, err'''),(P,None,'''
// get takes an idle connection, or opens a new one.
func (p *poolCh) get(ctx context.Context) (netx.Conn, error) {
	ch := p.getCh()
	if ch == nil {
		return nil, pool.ErrPoolClosed
	}
	select {
	case c := <-ch:
		return c, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	default:
	}
	return p.connector.New(ctx)
}
''')]
R['pool-release-helper']=[(P,'''	if err != nil {
		conn.Close()
		return r, err
	}

	if !p.put(conn) {
		conn.Close()
	}
	return r, nil
''','''	if err != nil || !p.put(conn) {
		conn.Close()
	}
	return r, err
''')]
R['pool-defer-release']=[(P,'''	r, err := conn.Send(ctx, wt)
	if err != nil {
		conn.Close()
		return r, err
	}

	if !p.put(conn) {
		conn.Close()
	}
	return r, nil
''','''	healthy := false
	defer func() { p.release(conn, healthy) }()
	r, err := conn.Send(ctx, wt)
	healthy = err == nil
	return r, err
'''),(P,None,'''
func (p *poolCh) release(conn netx.Conn, healthy bool) {
	if healthy && p.put(conn) {
		return
	}
	conn.Close()
}
''')]
R['pool-rwmutex']=[(P,'mu        sync.Mutex','mu        sync.RWMutex'),(P,'''	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return nil
	}
	return p.ch''','''	p.mu.RLock()
	closed := p.closed
	p.mu.RUnlock()
	if closed {
		return nil
	}
	return p.ch''')]
R['pool-put-unlock']=[(P,'''	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return false
	}
	select {
	case p.ch <- conn:
		return true
	default:
		return false
	}''','''	kept := false
	p.mu.Lock()
	if !p.closed {
		select {
		case p.ch <- conn:
			kept = true
		default:
		}
	}
	p.mu.Unlock()
	return kept''')]
R['pool-close-helper']=[(P,'''	p.mu.Lock()
	p.closed = true
	ch := p.ch
	p.mu.Unlock()
''','''	ch := p.shut()
'''),(P,None,'''
func (p *poolCh) shut() <-chan netx.Conn {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.closed = true
	return p.ch
}
''')]
R['pool-close-drain']=[(P,'''	for {
		select {
		case conn := <-ch:
			conn.Close()
		case <-ctx.Done():
			return ctx.Err()
		default:
			return nil
		}
	}''','''	for more := true; more; {
		select {
		case conn := <-ch:
			_ = conn.Close()
		case <-ctx.Done():
			return ctx.Err()
		default:
			more = false
		}
	}
	return nil''')]
N='netx/connection/connection.go'
R['conn-header-readfull']=[(N,'''		b, err := c.r.Peek(5)
		if err != nil {
			return nil, err
		}
		u := binary.LittleEndian.Uint32(b)
		st := mysqlx.ServerMessages_Type(b[4])
		c.r.Discard(5) // Peeked 5 bytes so Discard cannot fail.
		n := int(u)
''','''		var hdr [5]byte
		if _, err := io.ReadFull(c.r, hdr[:]); err != nil {
			return nil, err
		}
		var b []byte
		var err error
		st := mysqlx.ServerMessages_Type(hdr[4])
		n := int(binary.LittleEndian.Uint32(hdr[:4]))
''')]
R['conn-switch-order']=[(N,'''		case mysqlx.ServerMessages_NOTICE:

''',''),(N,'''		switch st {
		case mysqlx.ServerMessages_OK,
			mysqlx.ServerMessages_SESS_AUTHENTICATE_OK,
			mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK:
			c.r.Discard(n)
			return nil, nil
''','''		if isSuccess(st) {
			c.r.Discard(n)
			return nil, nil
		}
		switch st {
'''),(N,None,'''
func isSuccess(st mysqlx.ServerMessages_Type) bool {
	switch st {
	case mysqlx.ServerMessages_OK, mysqlx.ServerMessages_SESS_AUTHENTICATE_OK, mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK:
		return true
	}
	return false
}
''')]
R['conn-error-raise-helper']=[(N,'''			if e.IsFatal() {
				return e, e
			}
			switch ct {
			case mysqlx.ClientMessages_SESS_RESET,
				mysqlx.ClientMessages_SESS_AUTHENTICATE_START,
				mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE:
				return e, e
			}
			return e, nil
''','''			if e.IsFatal() || needsSuccess(ct) {
				return e, e
			}
			return e, nil
'''),(N,None,'''
func needsSuccess(ct mysqlx.ClientMessages_Type) bool {
	return ct == mysqlx.ClientMessages_SESS_RESET ||
		ct == mysqlx.ClientMessages_SESS_AUTHENTICATE_START ||
		ct == mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE
}
''')]
R['conn-discard-early']=[(N,'''			defer c.r.Discard(n)
			if err := proto.Unmarshal(b, &er); err != nil {
				return''','''			err := proto.Unmarshal(b, &er)
			c.r.Discard(n)
			if err != nil {
				return''')]
R['conn-body-always-copied']=[(N,'''		if n > 0 {
			b, err = c.r.Peek(n)
			if err != nil {
				if err != bufio.ErrBufferFull {
					return nil, err
				}
				if n > cap(buf) {
					buf = make([]byte, n)
				}
				b = buf[:n]
				if _, err := io.ReadFull(c.r, b); err != nil {
					return nil, err
				}
				n = 0 // Read n bytes, no need to Discard()
			}
		}
''','''		if n > cap(buf) {
			buf = make([]byte, n)
		}
		b = buf[:n]
		if _, err := io.ReadFull(c.r, b); err != nil {
			return nil, err
		}
		n = 0
''')]
R['conn-send-writeone-shared']=[(N,'''
	deadline, _ := ctx.Deadline()
	if err := c.netConn.SetDeadline(deadline); err != nil {
		return nil, fmt.Errorf("SetDeadline failed: %w", err)
	}
	if _, err := c.netConn.Write(b); err != nil {
		return nil, fmt.Errorf("Write failed: %w", err)
	}
	return c.Read(''','''	if err := c.write(ctx, b); err != nil {
		return nil, err
	}
	return c.Read('''),(N,None,'''
func (c *conn) write(ctx context.Context, b []byte) error {
	deadline, ok := ctx.Deadline()
	if !ok {
		deadline = time.Time{}
	}
	if err := c.netConn.SetDeadline(deadline); err != nil {
		return fmt.Errorf("SetDeadline failed: %w", err)
	}
	_, err := c.netConn.Write(b)
	if err != nil {
		return fmt.Errorf("Write failed: %w", err)
	}
	return nil
}
'''),(N,'''	"net"

''','''	"net"
	"time"

''')]
R['conn-responses-split']=[(N,'''	for i := 0; i < len(b); i += 4 + int(binary.LittleEndian.Uint32(b[i:])) {
		rr, err := c.Read(ctx, mysqlx.ClientMessages_Type(b[i+4]))
		r = append(r, rr)
		if err != nil {
			return r, err
		}
	}
	return r, nil''','''	for len(b) > 0 {
		size := binary.LittleEndian.Uint32(b)
		msg := b[4 : 4+int(size)]
		b = b[4+int(size):]
		rr, err := c.Read(ctx, mysqlx.ClientMessages_Type(msg[0]))
		r = append(r, rr)
		if err != nil {
			return r, err
		}
	}
	return r, nil''')]
R['conn-responses-while']=[(N,'''	for i := 0; i < len(b); i += 4 + int(binary.LittleEndian.Uint32(b[i:])) {
		rr, err := c.Read(ctx, mysqlx.ClientMessages_Type(b[i+4]))
		r = append(r, rr)
		if err != nil {
			return r, err
		}
	}
	return r, nil''','''	var err error
	for pos := 0; pos < len(b) && err == nil; {
		var rr netx.Response
		rr, err = c.Read(ctx, mysqlx.ClientMessages_Type(b[pos+4]))
		r = append(r, rr)
		pos += int(binary.LittleEndian.Uint32(b[pos:pos+4])) + 4
	}
	return r, err''')]
K='netx/connector/connector.go'
R['connector-plain-helper']=[(K,'''		if errors.As(err, &m) && m.Code == errs.ErAccessDeniedError && conn.IsSecure() {
			// Connected securely, so can attempt to authenticate with PLAIN,
			// which will populate the cache for caching_sha2 and sha256_password to start working
			if err2 := conn.Authenticate(ctx, c, plain.New()); err2 == nil {
				return conn, nil
			}
		}
		conn.Close()
		return nil, err''','''		mayFallBack := errors.As(err, &m) && m.Code == errs.ErAccessDeniedError && conn.IsSecure()
		if !mayFallBack || conn.Authenticate(ctx, c, plain.New()) != nil {
			conn.Close()
			return nil, err
		}'''),]
R['connector-tls-first-check']=[(K,'''	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
''','''	_, isTCP := netConn.(*net.TCPConn)
	if useTLS := isTCP && c.tlsConfig != nil; useTLS {
''')]
M='netx/connector/authentication/mysql41/mysql41.go'
B='builder.go'
R['update-sorted-once']=[(B,'''	for k, v := range set {
		b.buf, b.err = xproto.AppendUpdateSet(b.buf, k, v)
		if b.err != nil {
			return
		}
	}
	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
''','''	b.appendSets(set)
	if b.err != nil {
		return
	}
	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
'''),(B,None,'''
func (b *Builder) appendSets(set map[string]interface{}) {
	for k, v := range set {
		b.buf, b.err = xproto.AppendUpdateSet(b.buf, k, v)
		if b.err != nil {
			return
		}
	}
}
''')]
R['insert-rows-helper']=[(B,'''	for i, row := range data {
		if len(row) != len(columns) {
			b.err = fmt.Errorf("unexpected number of values in row %d, expected %d, got %d", i, len(columns), len(row))
			return
		}
		b.buf, b.err = xproto.AppendInsertRow(b.buf, row)
		if b.err != nil {
			return
		}
	}
	binary''','''	if b.buf, b.err = appendRows(b.buf, len(columns), data); b.err != nil {
		return
	}
	binary'''),(B,None,'''
func appendRows(p []byte, width int, data [][]interface{}) ([]byte, error) {
	for i, row := range data {
		if len(row) != width {
			return p, fmt.Errorf("unexpected number of values in row %d, expected %d, got %d", i, width, len(row))
		}
		var err error
		if p, err = xproto.AppendInsertRow(p, row); err != nil {
			return p, err
		}
	}
	return p, nil
}
''')]
A='xproto/any.go'
S='xproto/scalar.go'
R['duration-mod']=[(S,'''	i := 2 * (u / uint64(time.Minute) % 60)
	j := 2 * (u / uint64(time.Second) % 60)
	return append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])''','''	h := u / uint64(time.Hour)
	u %= uint64(time.Hour)
	m := u / uint64(time.Minute)
	u -= m * uint64(time.Minute)
	s := u / uint64(time.Second)
	p = append(strconv.AppendUint(p, h, 10), ':')
	p = append(p, smallsString[2*m], smallsString[2*m+1], ':')
	return append(p, smallsString[2*s], smallsString[2*s+1])''')]
D='types/decimal.go'
