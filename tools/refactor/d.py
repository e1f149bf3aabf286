R={}
N='netx/connection/connection.go'; K='netx/connector/connector.go'; PO='netx/pool/fifoch/fifoch.go'
B='builder.go'; C='crud.go'; D='types/decimal.go'; SL='slice/slice.go'; PB='xproto/protobuf.go'
IMP=lambda f,pkg,first: (f,'import (\n\t"%s"'%first,'import (\n\t"%s"\n\t"%s"'%(first,pkg))
R['slice-insert-slices']=[(SL,'''	if n == 0 {
		return in
	}
	if pos+n <= cap(in) {
		return append(in[:pos+n], in[pos:]...)
	}
	p := make([]byte, len(in)+n, len(in)+n+512)
	copy(p, in[:pos])
	copy(p[pos+n:], in[pos:])
	return p''','''	if n == 0 {
		return in
	}
	p, _ := ForAppend(in, n)
	copy(p[pos+n:], p[pos:len(in)])
	return p''')]
R['size-leadingzeros']=[(PB,'''	return int(9*uint32(bits.Len64(x))+64) / 64''','''	return (9*(64-bits.LeadingZeros64(x)) + 64) / 64''')]
R['size-switch']=[(PB,'''	return int(9*uint32(bits.Len32(x))+64) / 64''','''	switch {
	case x < 1<<7:
		return 1
	case x < 1<<14:
		return 2
	case x < 1<<21:
		return 3
	case x < 1<<28:
		return 4
	}
	return 5''')]
R['read-done-flag']=[(N,'''	for {
		b, err := c.r.Peek(5)
		if err != nil {
			return nil, err
		}
		u := binary''','''	for more := true; more; {
		b, err := c.r.Peek(5)
		if err != nil {
			return nil, err
		}
		u := binary'''),(N,'''			mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK:
			c.r.Discard(n)
			return nil, nil
''','''			mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK:
			more = false
'''),(N,'''		default:

		}
		c.r.Discard(n)
	}
}''','''		default:

		}
		c.r.Discard(n)
	}
	return nil, nil
}''')]
R['read-result-vars']=[(N,'''func (c *conn) Read(ctx context.Context, ct mysqlx.ClientMessages_Type) (netx.Response, error) {
	var buf []byte
	var cmd *mysqlx_resultset.ColumnMetaData

	for {''','''func (c *conn) Read(ctx context.Context, ct mysqlx.ClientMessages_Type) (netx.Response, error) {
	var buf []byte
	var cmd *mysqlx_resultset.ColumnMetaData
	var (
		resp netx.Response
		fail error
		done bool
	)
	for !done {'''),(N,'''			if e.IsFatal() {
				return e, e
			}
			switch ct {
			case mysqlx.ClientMessages_SESS_RESET,
				mysqlx.ClientMessages_SESS_AUTHENTICATE_START,
				mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE:
				return e, e
			}
			return e, nil
''','''			resp, done = e, true
			if e.IsFatal() {
				fail = e
			}
			switch ct {
			case mysqlx.ClientMessages_SESS_RESET,
				mysqlx.ClientMessages_SESS_AUTHENTICATE_START,
				mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE:
				fail = e
			}
			continue
'''),(N,'''		default:

		}
		c.r.Discard(n)
	}
}''','''		default:

		}
		c.r.Discard(n)
	}
	return resp, fail
}''')]
R['read-label']=[(N,'''	for {
		b, err := c.r.Peek(5)''','''read:
	for {
		b, err := c.r.Peek(5)'''),(N,'''			c.r.Discard(n)
			return nil, nil
''','''			c.r.Discard(n)
			break read
'''),(N,'''		default:

		}
		c.r.Discard(n)
	}
}''','''		case mysqlx.ServerMessages_RESULTSET_ROW:
			c.r.Discard(n)
			continue read
		}
		c.r.Discard(n)
	}
	return nil, nil
}''')]
R['read-header-helper']=[(N,'''		b, err := c.r.Peek(5)
		if err != nil {
			return nil, err
		}
		u := binary.LittleEndian.Uint32(b)
		st := mysqlx.ServerMessages_Type(b[4])
		c.r.Discard(5) // Peeked 5 bytes so Discard cannot fail.
		n := int(u)
		if n < 1 {
			return nil, fmt.Errorf("length too short, got %d", n)
		}
		n--
''','''		st, n, err := c.header()
		if err != nil {
			return nil, err
		}
		var b []byte
'''),(N,None,'''
func (c *conn) header() (st mysqlx.ServerMessages_Type, n int, err error) {
	h, err := c.r.Peek(5)
	if err != nil {
		return 0, 0, err
	}
	st, n = mysqlx.ServerMessages_Type(h[4]), int(binary.LittleEndian.Uint32(h[:4]))
	if _, err = c.r.Discard(len(h)); err != nil {
		return 0, 0, err
	}
	if n--; n < 0 {
		return 0, 0, fmt.Errorf("length too short, got %d", n+1)
	}
	return st, n, nil
}
''')]
R['insert-index-loop-flag']=[(B,'''	for i, row := range data {
		if len(row) != len(columns) {
			b.err = fmt.Errorf("unexpected number of values in row %d, expected %d, got %d", i, len(columns), len(row))
			return
		}
		b.buf, b.err = xproto.AppendInsertRow(b.buf, row)
		if b.err != nil {
			return
		}
	}
	binary''','''	for i := 0; i < len(data) && b.err == nil; i++ {
		if row := data[i]; len(row) == len(columns) {
			b.buf, b.err = xproto.AppendInsertRow(b.buf, row)
		} else {
			b.err = fmt.Errorf("unexpected number of values in row %d, expected %d, got %d", i, len(columns), len(row))
		}
	}
	if b.err != nil {
		return
	}
	binary''')]
R['update-break']=[(B,'''		b.buf, b.err = xproto.AppendUpdateSet(b.buf, k, v)
		if b.err != nil {
			return
		}
	}
	binary''','''		if b.buf, b.err = xproto.AppendUpdateSet(b.buf, k, v); b.err != nil {
			break
		}
	}
	if b.err != nil {
		return
	}
	binary''')]
R['builder-frame-closure']=[(B,'''	n := len(b.buf)

	b.buf = xproto.Insert(b.buf, name, columns)
	for i, row''','''	finish := b.open()

	b.buf = xproto.Insert(b.buf, name, columns)
	for i, row'''),(B,'''		b.buf, b.err = xproto.AppendInsertRow(b.buf, row)
		if b.err != nil {
			return
		}
	}
	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
}''','''		b.buf, b.err = xproto.AppendInsertRow(b.buf, row)
		if b.err != nil {
			return
		}
	}
	finish()
}

// open remembers where a message starts, the returned function fills in its length.
func (b *Builder) open() func() {
	n := len(b.buf)
	return func() {
		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
	}
}''')]
R['builder-do-closure']=[(B,'''	if b.disabled {
		panic("Prepare called on non child")
	}
	if b.err != nil {
		return
	}
	b.buf = xproto.Prepare(b.buf, id, stmt)
}''','''	b.do("Prepare", func(p []byte) ([]byte, error) { return xproto.Prepare(p, id, stmt), nil })
}

func (b *Builder) do(op string, f func(p []byte) ([]byte, error)) {
	if b.disabled {
		panic(op + " called on non child")
	}
	if b.err == nil {
		b.buf, b.err = f(b.buf)
	}
}'''),(B,'''	if b.disabled {
		panic("Execute called on non child")
	}
	if b.err != nil {
		return
	}
	b.buf, b.err = xproto.Execute(b.buf, id, args)''','''	b.do("Execute", func(p []byte) ([]byte, error) { return xproto.Execute(p, id, args) })''')]
R['tx-stmts-slice']=[(B,'''	b.StmtExecute(start)
	b.call(f)
	b.StmtExecute("COMMIT")''','''	for _, s := range []string{start, "", "COMMIT"} {
		if s == "" {
			b.call(f)
			continue
		}
		b.StmtExecute(s)
	}''')]
R['call-unlock-defer']=[(B,'''	b.disabled = true
	if err := f(&child); err != nil && child.err == nil {
		child.err = err
	}
	b.buf = child.buf
	b.err = child.err
	b.disabled = false
}''','''	b.disabled = true
	err := f(&child)
	b.disabled = false
	b.buf = child.buf
	if b.err = child.err; b.err == nil {
		b.err = err
	}
}''')]
R['insertrow-array']=[(B,'''	id := "@id$" + strconv.Itoa(len(b.buf))
	b.StmtExecute("SET " + id + " = LAST_INSERT_ID()")''','''	var scratch [32]byte
	id := string(strconv.AppendInt(append(scratch[:0], "@id$"...), int64(len(b.buf)), 10))
	b.StmtExecute(fmt.Sprintf("SET %s = LAST_INSERT_ID()", id))''')]
R['crud-generic']=[(C,'''	n := len(b.buf)
	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
	b.disabled = true
	if err := f(i); err != nil && i.err == nil {
		i.err = err
	}
	b.disabled = false
	b.buf, b.err = i.buf, i.err
	if b.err != nil {
		return
	}
	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
}''','''	n := len(b.buf)
	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
	b.disabled = true
	err := f(i)
	b.disabled = false
	b.close(n, i.buf, i.err, err)
}

// close takes over what a callback built, and sets the length of the message that starts at n.
func (b *Builder) close(n int, buf []byte, errs ...error) {
	b.buf = buf
	for _, err := range errs {
		if err != nil {
			b.err = err
			return
		}
	}
	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
}''')]
R['decompose-index']=[(D,'''	for _, x := range d[1:] {
		y := x & 0x0F
		x >>= 4
		if x > 9 {
			negative = x == 0xB || x == 0xD
			break
		}
		ui256.MulAdd(10, uint64(x))
		if y > 9 {
			negative = y == 0xB || y == 0xD
			break
		}
		ui256.MulAdd(10, uint64(y))
	}
''','''	for i := 1; i < len(d); i++ {
		hi, lo := d[i]>>4, d[i]&0x0F
		if hi <= 9 {
			ui256.MulAdd(10, uint64(hi))
			if lo <= 9 {
				ui256.MulAdd(10, uint64(lo))
				continue
			}
			hi = lo
		}
		switch hi {
		case 0xB, 0xD:
			negative = true
		}
		break
	}
''')]
R['decompose-pair']=[(D,'''		ui256.MulAdd(10, uint64(x))
		if y > 9 {
			negative = y == 0xB || y == 0xD
			break
		}
		ui256.MulAdd(10, uint64(y))
''','''		if y > 9 {
			ui256.MulAdd(10, uint64(x))
			negative = y == 0xB || y == 0xD
			break
		}
		ui256.MulAdd(100, 10*uint64(x)+uint64(y))
''')]
R['decimal-string-plus']=[(D,'''			b = append(b, digits[x])
			if y''','''			b = append(b, '0'+x)
			if y'''),(D,'''		b = append(b, digits[x], digits[y])''','''		b = append(b, x+'0', y+'0')'''),(D,'''		digits    = "0123456789"
''','''''')]
R['pool-send-finish']=[(PO,'''	r, err := conn.Send(ctx, wt)
	if err != nil {
		conn.Close()
		return r, err
	}

	if !p.put(conn) {
		conn.Close()
	}
	return r, nil''','''	r, err := conn.Send(ctx, wt)
	if err != nil || !p.put(conn) {
		conn.Close()
	}
	return r, err''')]
R['pool-acquire']=[(PO,'''	var (
		conn netx.Conn
		err  error
	)
	ch := p.getCh()
	if ch == nil {
		return nil, pool.ErrPoolClosed
	}
	select {
	case conn = <-ch:

	case <-ctx.Done():
		return nil, ctx.Err()

	default:
		if conn, err = p.connector.New(ctx); err != nil {
			return nil, err
		}
	}
''','''	conn, err := p.acquire(ctx)
	if err != nil {
		return nil, err
	}
'''),(PO,'''var _ pool.Pool =''','''func (p *poolCh) acquire(ctx context.Context) (netx.Conn, error) {
	ch := p.getCh()
	if ch == nil {
		return nil, pool.ErrPoolClosed
	}
	select {
	case conn := <-ch:
		return conn, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	default:
		return p.connector.New(ctx)
	}
}

var _ pool.Pool =''')]
R['pool-close-loop-flag']=[(PO,'''	for {
		select {
		case conn := <-ch:
			conn.Close()
		case <-ctx.Done():
			return ctx.Err()
		default:
			return nil
		}
	}
}''','''	var err error
	for idle := true; idle; {
		select {
		case conn := <-ch:
			_ = conn.Close()
		case <-ctx.Done():
			idle, err = false, ctx.Err()
		default:
			idle = false
		}
	}
	return err
}''')]
R['connector-securing']=[(K,'''	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
		b, err := xproto.CapabilitySet("tls", true)
		if err != nil {
			conn.Close()
			return nil, err
		}
		// @TODO response test
		if _, err := conn.Send(ctx, b); err != nil {
			conn.Close()
			return nil, err
		}
		tlsConn := tls.Client(netConn, c.tlsConfig)
		if err := tlsConn.Handshake(); err != nil {
			tlsConn.Close()
			return nil, fmt.Errorf("failed TLS handshake: %w", err)
		}
		conn.Reset(tlsConn)
	}
''','''	switch netConn.(type) {
	case *net.TCPConn:
		if c.tlsConfig == nil {
			break
		}
		b, err := xproto.CapabilitySet("tls", true)
		if err == nil {
			_, err = conn.Send(ctx, b)
		}
		if err != nil {
			conn.Close()
			return nil, err
		}
		tlsConn := tls.Client(netConn, c.tlsConfig)
		if err := tlsConn.HandshakeContext(ctx); err != nil {
			netConn.Close()
			return nil, fmt.Errorf("failed TLS handshake: %w", err)
		}
		conn.Reset(tlsConn)
	}
''')]
del R['connector-securing']
R['connector-securing']=[(K,'''		b, err := xproto.CapabilitySet("tls", true)
		if err != nil {
			conn.Close()
			return nil, err
		}
		// @TODO response test
		if _, err := conn.Send(ctx, b); err != nil {
			conn.Close()
			return nil, err
		}
''','''		b, err := xproto.CapabilitySet("tls", true)
		if err == nil {
			_, err = conn.Send(ctx, b)
		}
		if err != nil {
			conn.Close()
			return nil, err
		}
''')]
R['connector-options-while']=[(K,'''	for _, opt := range options {
		if err := opt(cnn); err != nil {
			return nil, err
		}
	}
	return cnn, nil''','''	var err error
	for ; len(options) > 0 && err == nil; options = options[1:] {
		err = options[0](cnn)
	}
	if err != nil {
		return nil, err
	}
	return cnn, nil''')]
R['row-loop-flag']=[('xproto/insert.go','''	for j, v := range row {
		var err error
		p, err = appendExpr(p, tagTypedRowField, v)
		if err != nil {
			return p, fmt.Errorf("failed to marshal column %d: %w", j, err)
		}
	}
''','''	var err error
	j := 0
	for ; j < len(row) && err == nil; j++ {
		p, err = appendExpr(p, tagTypedRowField, row[j])
	}
	if err != nil {
		return p, fmt.Errorf("failed to marshal column %d: %w", j-1, err)
	}
''')]
R['operator-params-break']=[('xproto/expr.go','''	i := len(p)
	for j, param := range params {
		var err error
		p, err = appendExpr(p, tagFunctionCallParam, param)
		if err != nil {
			return p, fmt.Errorf("parameter %d: %w", j, err)
		}
	}
''','''	i := len(p)
	var (
		err error
		bad int
	)
	for j, param := range params {
		if p, err = appendExpr(p, tagFunctionCallParam, param); err != nil {
			bad = j
			break
		}
	}
	if err != nil {
		return p, fmt.Errorf("parameter %d: %w", bad, err)
	}
''')]
R['expect-while']=[('xproto/expect.go','''	for _, appendCondition := range conditions {
		p = appendCondition(p)
	}
''','''	for len(conditions) > 0 {
		p = conditions[0](p)
		conditions = conditions[1:]
	}
''')]
R['expect-lenbytes']=[('xproto/expect.go','''	binary.LittleEndian.PutUint32(p[i:], uint32(len(p)-i-4))
	return p
}

func ExpectClose''','''	n := uint32(len(p[i+4:]))
	p[i], p[i+1], p[i+2], p[i+3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	return p
}

func ExpectClose''')]
R['expect-cond-varint']=[('xproto/expect.go','''		p = append(p, tagExpectOpenCond<<3|wireBytes, byte(n0)|0x80, byte(n0>>7)|0x80, byte(n0>>14)|0x80, byte(n0>>21)|0x80, byte(n0>>28))
		i := len(p) - binary.MaxVarintLen32 + sizeVarint(uint(n0))
		p[i-1] &= 0x7F
		p = append(p[:i], tagOpen''','''		p = binary.AppendUvarint(append(p, tagExpectOpenCond<<3|wireBytes), uint64(n0))
		p = append(p, tagOpen'''),('xproto/expect.go','''		i = len(p) - binary.MaxVarintLen32 + sizeVarint(uint(n))''','''		i := len(p) - binary.MaxVarintLen32 + sizeVarint(uint(n))''')]
R['auth-continue-make']=[('xproto/authentication.go','''	p = append(p[len(p):], 0, 0, 0, 0, byte(mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE))
	p = appendWireBytes(p, tagAuthenticateContinueAuthData, authData)
	binary.LittleEndian.PutUint32(p, uint32(len(p)-4))
	return p''','''	q := make([]byte, 5, 5+11+len(authData))
	q[4] = byte(mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE)
	q = appendWireBytes(q, tagAuthenticateContinueAuthData, authData)
	binary.LittleEndian.PutUint32(q, uint32(len(q)-4))
	return q''')]
R['capset-marshal']=[('xproto/authentication.go','''	n := proto.Size(&cs)
	b := make([]byte, 5+n)
	binary.LittleEndian.PutUint32(b, uint32(n+1))
	b[4] = byte(mysqlx.ClientMessages_CON_CAPABILITIES_SET)
	buf := proto.NewBuffer(b[:5])
	if err := buf.Marshal(&cs); err != nil {
		return nil, fmt.Errorf("failed to marshal CapabilitiesSet: %w", err)
	}
	return b, nil''','''	body, err := proto.Marshal(&cs)
	if err != nil {
		return nil, fmt.Errorf("failed to marshal CapabilitiesSet: %w", err)
	}
	b := binary.LittleEndian.AppendUint32(make([]byte, 0, 5+len(body)), uint32(len(body)+1))
	b = append(b, byte(mysqlx.ClientMessages_CON_CAPABILITIES_SET))
	return append(b, body...), nil''')]
R['update-set-parts']=[('xproto/update.go','''	p = slice.Insert(p, i, 1+sizeVarint(uint(n2))+n2-nV)
	p[i] = tagUpdateUpdateOperation<<3 | wireBytes
	i++
	i += putUvarint(p[i:], uint64(n2))
	p[i] = tagUpdateOperationSource<<3 | wireBytes
	i++
	i += putUvarint(p[i:], uint64(n1))
	p[i] = tagColumnIdentifierName<<3 | wireBytes
	i++
	i += putUvarint(p[i:], uint64(n))
	i += copy(p[i:], name)
	p[i] = tagUpdateOperationOperation<<3 | wireVarint
	i++
	p[i] = byte(mysqlx_crud.UpdateOperation_SET)
	return p, nil''','''	p = slice.Insert(p, i, 1+sizeVarint(uint(n2))+n2-nV)
	put := func(tag byte, n int) {
		p[i] = tag
		i++
		i += putUvarint(p[i:], uint64(n))
	}
	put(tagUpdateUpdateOperation<<3|wireBytes, n2)
	put(tagUpdateOperationSource<<3|wireBytes, n1)
	put(tagColumnIdentifierName<<3|wireBytes, n)
	i += copy(p[i:], name)
	put(tagUpdateOperationOperation<<3|wireVarint, int(mysqlx_crud.UpdateOperation_SET))
	return p, nil''')]
R['column-encoder-type']=[('xproto/expr.go','''	b[0] = tag<<3 | wireBytes
	i := 1 + putUvarint(b[1:], uint64(n1))
	b[i] = tagExprType<<3 | wireVarint
	i++
	b[i] = byte(mysqlx_expr.Expr_IDENT)
	i++
	b[i] = tagExprIdentifier<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(n0))
	b[i] = tagColumnIdentifierName<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(n))
	copy(b[i:], name)
	return p, nil
}''','''	w := writer{b: b}
	w.varint(tag<<3|wireBytes, n1)
	w.varint(tagExprType<<3|wireVarint, int(mysqlx_expr.Expr_IDENT))
	w.varint(tagExprIdentifier<<3|wireBytes, n0)
	w.varint(tagColumnIdentifierName<<3|wireBytes, n)
	copy(w.b[w.i:], name)
	return p, nil
}

type writer struct {
	b []byte
	i int
}

func (w *writer) varint(tag byte, n int) {
	w.b[w.i] = tag
	w.i += 1 + putUvarint(w.b[w.i+1:], uint64(n))
}''')]
