# Bugs for a campaign without demonstrations: (property expected to report, [(file, old, new)]).
R={}
N='netx/connection/connection.go'; K='netx/connector/connector.go'; PO='netx/pool/fifoch/fifoch.go'
B='builder.go'; C='crud.go'; D='types/decimal.go'; SL='slice/slice.go'; PB='xproto/protobuf.go'; E='expr.go'; XP='xpipe.go'
XE='xproto/expr.go'; XA='xproto/any.go'; XI='xproto/insert.go'; XU='xproto/update.go'; XX='xproto/xproto.go'; XPr='xproto/prepare.go'
R['notice-discard']=('C16',[(N,'		case mysqlx.ServerMessages_NOTICE:\n','		case mysqlx.ServerMessages_NOTICE:\n			c.r.Discard(int(u) - 1)\n			continue\n')])
R['last-short-message']=('C17',[(N,'i < len(b); i += 4','i+5 < len(b); i += 4')])
R['read-keeps-meta-buffer']=('C16',[(N,'if n > cap(buf) {\n					buf = make([]byte, n)','if n > cap(buf) {\n					buf = make([]byte, n, 2*minBufSize)')])
R['response-dropped-on-error']=('C17',[(N,'''		rr, err := c.Read(ctx, mysqlx.ClientMessages_Type(b[i+4]))
		r = append(r, rr)
		if err != nil {''','''		rr, err := c.Read(ctx, mysqlx.ClientMessages_Type(b[i+4]))
		if rr != nil || err == nil {
			r = append(r, rr)
		}
		if err != nil {''')])
R['nil-response-dropped']=('C17',[(N,'''		r = append(r, rr)
		if err != nil {''','''		if rr != nil || len(r) > 0 {
			r = append(r, rr)
		}
		if err != nil {''')])
R['fatal-after-soft']=('C16',[(N,'''			if e.IsFatal() {
				return e, e
			}
			switch ct {''','''			if e.IsFatal() && cmd == nil {
				return e, e
			}
			switch ct {''')])
R['pool-put-blocks']=('C20',[(PO,'''	case p.ch <- conn:
		return true
	default:
		return false
	}''','''	case p.ch <- conn:
		return true
	}''')])
R['pool-check-then-act']=('C20',[(PO,'''	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return false
	}
	select {''','''	if p.getCh() == nil {
		return false
	}
	select {''')])
R['pool-close-late-flag']=('C20',[(PO,'''	p.mu.Lock()
	p.closed = true
	ch := p.ch
	p.mu.Unlock()
''','''	p.mu.Lock()
	ch := p.ch
	p.mu.Unlock()
	defer func() {
		p.mu.Lock()
		p.closed = true
		p.mu.Unlock()
	}()
''')])
R['pool-close-first-only']=('C20',[(PO,'			conn.Close()\n		case <-ctx.Done():','			if err := conn.Close(); err != nil {\n				return err\n			}\n		case <-ctx.Done():')])
R['pool-ctx-err-kept']=('C20',[(PO,'''	if err != nil {
		conn.Close()
		return r, err
	}
''','''	if err != nil && len(r) == 0 {
		conn.Close()
		return r, err
	}
''')])
R['pool-reuse-once']=('C20',[(PO,'''	if err != nil {
		conn.Close()
		return r, err
	}

	if !p.put(conn) {''','''	if err != nil && ctx.Err() == nil {
		conn.Close()
		return r, err
	} else if err != nil {
		p.put(conn)
		return r, err
	}

	if !p.put(conn) {''')])
R['child-keeps-disabled']=('C14',[(B,'''	b.err = child.err
	b.disabled = false
''','''	b.err = child.err
	b.disabled = child.disabled && b.err != nil
''')])
R['call-no-buf-on-error']=('C13',[(B,'''	b.buf = child.buf
	b.err = child.err
''','''	b.buf = child.buf
	if child.err != nil || len(child.buf) == 0 {
		b.err = child.err
	} else {
		b.err = nil
	}
''')])
R['send-clears']=('C13',[(B,'''	return s.Send(ctx, b.buf)
''','''	r, err := s.Send(ctx, b.buf)
	if err == nil {
		b.buf = b.buf[:0]
	}
	return r, err
''')])
R['send-empty-skip']=('C13',[(B,'''	return s.Send(ctx, b.buf)
''','''	if len(b.buf) == 0 {
		return nil, nil
	}
	return s.Send(ctx, b.buf)
''')])
R['tx-snapshot-level']=('C11',[(B,'''	case IsolationLevelSnapshot:
		start =''','''	case IsolationLevelSnapshot:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL READ COMMITTED")
		start =''')])
R['capture-name-cut']=('C15',[(B,'id := "@id$" + strconv.Itoa(len(b.buf))','id := "@id$" + strconv.Itoa(len(b.buf)-n)')])
R['capture-live']=('C15',[(B,'''	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprVariable(p, tag, id)''','''	return func(p []byte, tag uint8) ([]byte, error) {
		if len(p) == 0 {
			id = "@id$" + strconv.Itoa(len(b.buf))
		}
		return xproto.AppendExprVariable(p, tag, id)''')])
R['insert-empty-data']=('C08',[(B,'	b.buf = xproto.Insert(b.buf, name, columns)\n	for i, row','	if len(data) == 0 {\n		return\n	}\n	b.buf = xproto.Insert(b.buf, name, columns)\n	for i, row')])
R['insert-len-check']=('C08',[(B,'if len(row) != len(columns) {','if len(row) != len(columns) && len(columns) > 0 {')])
R['update-nil-value']=('C09',[(B,'	for k, v := range set {\n','	for k, v := range set {\n		if k == "" {\n			continue\n		}\n')])
R['row-error-lost']=('C13',[(C,'''	if i.err == nil {
		i.buf, i.err = xproto.AppendInsertRow(i.buf, args)
	}''','''	if i.err == nil || len(args) == 0 {
		i.buf, i.err = xproto.AppendInsertRow(i.buf, args)
	}''')])
R['conn-reset-reader']=('C19',[(N,'	c.netConn = netConn\n	c.r.Reset(netConn)','	c.netConn = netConn\n	if c.r.Buffered() > 0 {\n		return\n	}\n	c.r.Reset(netConn)')])
R['tls-any']=('C19',[(K,'if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {','if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil && len(c.tlsConfig.ServerName) > 0 {')])
R['secure-any']=('C19',[(N,'	switch c.netConn.(type) {\n	case *tls.Conn, *net.UnixConn:','	switch c.netConn.(type) {\n	case *net.TCPConn:\n		return c.netConn.RemoteAddr().Network() != "tcp"\n	case *tls.Conn, *net.UnixConn, net.Conn:')])
R['option-empty-password']=('C19',[(K,'		cnn.userName = userName\n		cnn.password = password','		cnn.userName = userName\n		if password != "" {\n			cnn.password = password\n		}')])
R['delete-empty-criteria']=('C09',[(XX,'''		p, err = criteria(p, tagDeleteCriteria)
		if err != nil {
			return p, err
		}''','''		m := len(p)
		p, err = criteria(p, tagDeleteCriteria)
		if err != nil && len(p) > m {
			return p, err
		}''')])
R['prepare-id-zero']=('C07',[(XPr,'	n2 := 2 + sizeVarint32(id)','	if id == 0 {\n		id = 1\n	}\n	n2 := 2 + sizeVarint32(id)')])
R['exec-nil-args']=('C07',[(XPr,'	for _, arg := range args {\n		var err error\n','	for _, arg := range args {\n		var err error\n		if b, ok := arg.([]byte); ok && b == nil {\n			continue\n		}\n')])
R['any-neg-zero']=('C01',[(XA,'func appendAnyFloat64(p []byte, tag uint8, f float64) []byte {\n','func appendAnyFloat64(p []byte, tag uint8, f float64) []byte {\n	f += 0\n')])
R['expr-int8-top']=('C02',[(XE,'func appendExprInt64(p []byte, tag uint8, v int64) []byte {\n','func appendExprInt64(p []byte, tag uint8, v int64) []byte {\n	if v == -1<<63 {\n		v++\n	}\n')])
R['forappend-spare']=('C22',[(SL,'head = make([]byte, nn, 2*nn)','head = make([]byte, nn, 2*nn)[:nn:nn+n/2]')])
