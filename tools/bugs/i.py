R={}
N='netx/connection/connection.go'; K='netx/connector/connector.go'; PO='netx/pool/fifoch/fifoch.go'
B='builder.go'; C='crud.go'; TD='types/decimal.go'; SL='slice/slice.go'; PB='xproto/protobuf.go'; XP='xpipe.go'; E='expr.go'; COL='collation/collation.go'
XA='xproto/any.go'; XE='xproto/expr.go'; XI='xproto/insert.go'; XU='xproto/update.go'; XX='xproto/xproto.go'; XPr='xproto/prepare.go'; XEx='xproto/expect.go'; XAu='xproto/authentication.go'; XS='xproto/scalar.go'
SH='netx/connector/authentication/sha256/sha256.go'; M41='netx/connector/authentication/mysql41/mysql41.go'; PL='netx/connector/authentication/plain/plain.go'
R['time-utc']=('C01',[(XA,'	p = t.AppendFormat(append(p,','	p = t.UTC().AppendFormat(append(p,')])
R['neg-zero']=('C01',[(XA,'	x := math.Float64bits(f)\n','	if f == 0 {\n		f = 0\n	}\n	x := math.Float64bits(f + 0)\n')])
R['neg-zero-expr']=('C02',[(XE,'	x := math.Float32bits(f)\n','	var x uint32\n	if f != 0 {\n		x = math.Float32bits(f)\n	}\n')])
R['ptr-depth']=('C01',[(XA,'typeSwitch:\n','	depth := 0\ntypeSwitch:\n'),(XA,'			value = rv.Elem().Interface()\n','			if depth++; depth > 3 {\n				return appendAnyNull(p, tag), nil\n			}\n			value = rv.Elem().Interface()\n')])
R['collation-byte']=('C03',[(XE,'		i = putUvarint(b[1:], uint64(collation))\n','		i = putUvarint(b[1:], uint64(collation)&0x3fff)\n')])
R['octets-ct-len']=('C03',[(XA,'		n0 += 1 + sizeVarint(uint(contentType))\n	}\n	n1 := 3 + sizeVarint(uint(n0)) + n0 // Scalar size\n	n2 := 3 + sizeVarint(uint(n1)) + n1 // Any size\n\n	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n2))+n2)\n\n	i := putUvarint(b[1:], uint64(n2))\n	b[0] = tag<<3 | wireBytes\n	b = b[1+i:]\n	// Any\n	i = putUvarint(b[3:], uint64(n1))\n	b[0] = tagAnyType<<3 | wireVarint\n	b[1] = byte(mysqlx_datatypes.Any_SCALAR)\n	b[2] = tagAnyScalar<<3 | wireBytes\n	b = b[3+i:]\n	// Scalar\n	i = putUvarint(b[3:], uint64(n0))\n	b[0] = tagScalarType<<3 | wireVarint\n	b[1] = byte(mysqlx_datatypes.Scalar_V_OCTETS)\n	b[2] = tagScalarOctets<<3 | wireBytes\n	b = b[3+i:]\n\n	// Scalar_Octets\n	if contentType != ContentTypePlain {\n		i = putUvarint(b[1:], uint64(contentType))\n		b[0] = tagOctetContentType<<3 | wireVarint\n		b = b[1+i:]\n	}\n	i = putUvarint(b[1:], uint64(n))\n	b[0] = tagOctetValue<<3 | wireBytes\n	copy(b[1+i:], str)','		n0 += 2\n	}\n	n1 := 3 + sizeVarint(uint(n0)) + n0 // Scalar size\n	n2 := 3 + sizeVarint(uint(n1)) + n1 // Any size\n\n	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n2))+n2)\n\n	i := putUvarint(b[1:], uint64(n2))\n	b[0] = tag<<3 | wireBytes\n	b = b[1+i:]\n	// Any\n	i = putUvarint(b[3:], uint64(n1))\n	b[0] = tagAnyType<<3 | wireVarint\n	b[1] = byte(mysqlx_datatypes.Any_SCALAR)\n	b[2] = tagAnyScalar<<3 | wireBytes\n	b = b[3+i:]\n	// Scalar\n	i = putUvarint(b[3:], uint64(n0))\n	b[0] = tagScalarType<<3 | wireVarint\n	b[1] = byte(mysqlx_datatypes.Scalar_V_OCTETS)\n	b[2] = tagScalarOctets<<3 | wireBytes\n	b = b[3+i:]\n\n	// Scalar_Octets\n	if contentType != ContentTypePlain {\n		b[1] = byte(contentType)\n		b[0] = tagOctetContentType<<3 | wireVarint\n		b = b[2:]\n	}\n	i = putUvarint(b[1:], uint64(n))\n	b[0] = tagOctetValue<<3 | wireBytes\n	copy(b[1+i:], str)')])
R['duration-hours-cap']=('C04',[(XS,'strconv.AppendUint(p, u/uint64(time.Hour), 10)','strconv.AppendUint(p, uint64(uint32(u/uint64(time.Second)))/3600, 10)')])
R['placeholder-size']=('C05',[(XE,'func AppendExprPlaceholder(p []byte, tag uint8, pos uint32) ([]byte, error) {\n','func AppendExprPlaceholder(p []byte, tag uint8, pos uint32) ([]byte, error) {\n	pos &= 1<<31 - 1\n')])
R['in-shared-empty']=('C06',[(E,'func In(a interface{}, b []interface{}) exprFunc {\n	v := make([]interface{}, 1+len(b))\n	v[0] = a\n	copy(v[1:], b)\n','func In(a interface{}, b []interface{}) exprFunc {\n	var v []interface{}\n	if cap(b) > len(b) {\n		v = append(b, nil)\n		copy(v[1:], b)\n		v[0] = a\n	} else {\n		v = append([]interface{}{a}, b...)\n	}\n')])
R['stmt-trim-semicolon']=('C07',[(B,'	b.buf, b.err = xproto.StmtExecute(b.buf, stmt, args)','	if n := len(stmt); n > 1 && stmt[n-1] == \';\' {\n		stmt = stmt[:n-1]\n	}\n	b.buf, b.err = xproto.StmtExecute(b.buf, stmt, args)')])
R['set-dotted']=('C09',[(C,'		u.buf, u.err = xproto.AppendUpdateSet(u.buf, name, value)','		if len(name) > 2 && name[0] == \'`\' && name[len(name)-1] == \'`\' {\n			name = name[1 : len(name)-1]\n		}\n		u.buf, u.err = xproto.AppendUpdateSet(u.buf, name, value)')])
R['insert-skip-empty-col']=('C08',[(XI,'		var b []byte\n		n := len(name)\n','		if name == "" {\n			continue\n		}\n		var b []byte\n		n := len(name)\n')])
R['row-mismatch-later']=('C08',[(B,'		if len(row) != len(columns) {','		if len(row) != len(columns) && (i == 0 || len(row) != len(data[0])) {')])
R['row-mismatch-nilcols']=('C08',[(B,'		if len(row) != len(columns) {','		if columns != nil && len(row) != len(columns) {')])
R['frame-24bit']=('C10',[(C,'	b.buf, b.err = i.buf, i.err\n	if b.err != nil {\n		return\n	}\n	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))','	b.buf, b.err = i.buf, i.err\n	if b.err != nil {\n		return\n	}\n	size := len(b.buf) - n - 4\n	b.buf[n], b.buf[n+1], b.buf[n+2] = byte(size), byte(size>>8), byte(size>>16)')])
R['tx-level-sticky']=('C11',[(B,'	case IsolationLevelSnapshot:\n','	case IsolationLevelSnapshot:\n		if len(b.buf) == 0 {\n			b.StmtExecute("SET TRANSACTION ISOLATION LEVEL REPEATABLE READ")\n		}\n')])
R['expect-ctx-norm']=('C12',[(B,'	b.buf = xproto.ExpectOpen(b.buf, xproto.OpenCtxOperation(context), ','	if len(b.buf) == 0 {\n		context = OpenExpectCtxEmpty\n	}\n	b.buf = xproto.ExpectOpen(b.buf, xproto.OpenCtxOperation(context), ')])
R['send-consumes']=('C13',[(B,'	return s.Send(ctx, b.buf)\n','	r, err := s.Send(ctx, b.buf)\n	if err == nil && len(r) > 0 {\n		b.buf = b.buf[:0]\n	}\n	return r, err\n')])
R['send-empty']=('C13',[(B,'	return s.Send(ctx, b.buf)\n','	if len(b.buf) == 0 {\n		return nil, nil\n	}\n	return s.Send(ctx, b.buf)\n')])
R['reset-in-callback']=('C14',[(XP,'	x.reset()\n','	x.disabled = false\n	x.reset()\n')])
R['delete-no-lock']=('C14',[(B,'		panic("Delete called on non child")\n	}\n	if b.err != nil {','		if b.err != nil {\n			return\n		}\n		panic("Delete called on non child")\n	}\n	if b.err != nil {')])
R['capture-hex']=('C15',[(B,'	id := "@id$" + strconv.Itoa(len(b.buf))\n','	id := "@id$" + strconv.Itoa(len(b.buf)&0xffff)\n')])
R['read-notice-skip']=('C16',[(N,'		case mysqlx.ServerMessages_NOTICE:\n','		case mysqlx.ServerMessages_NOTICE:\n			if n > minBufSize-5 {\n				n = minBufSize - 5\n			}\n')])
R['read-len-max']=('C16',[(N,'		if n < 1 {\n','		if n < 1 || n > 1<<16 && st == mysqlx.ServerMessages_RESULTSET_ROW {\n')])
R['read-state-loss']=('C16',[(N,'				SqlState: er.GetSqlState(),\n','				SqlState: er.GetSqlState()[:len(er.GetSqlState())/5*5],\n')])
R['send-chunks']=('C17',[(N,'	if _, err := c.netConn.Write(b); err != nil {\n		return nil, fmt.Errorf("Write failed: %w", err)\n	}\n	return c.ReadResponsesToSlice(','	for w := b; len(w) > 0; {\n		n := len(w)\n		if n > 1<<20 {\n			n = 1 << 20\n		}\n		if _, err := c.netConn.Write(w[:n]); err != nil {\n			return nil, fmt.Errorf("Write failed: %w", err)\n		}\n		w = w[n:]\n	}\n	return c.ReadResponsesToSlice(')])
R['send-last-type']=('C17',[(N,'		rr, err := c.Read(ctx, mysqlx.ClientMessages_Type(b[i+4]))\n','		rr, err := c.Read(ctx, mysqlx.ClientMessages_Type(b[i+4])&^0x40)\n')])
R['challenge-nul']=('C18',[(M41,'		h.Write(authData)\n','		if n := len(authData); n == 21 && authData[20] == 0 {\n			authData = authData[:20]\n		}\n		h.Write(authData)\n')])
R['sha-empty-pw']=('C18',[(SH,'	for i, x := range h1 {\n','	if len(c.Password()) == 0 {\n		h1 = h1[:0]\n	}\n	for i, x := range h1 {\n')])
R['tls-unix-too']=('C19',[(K,'if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {','if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil && c.network != "tcp6" {')])
R['fallback-closed']=('C19',[(K,'			if err2 := conn.Authenticate(ctx, c, plain.New()); err2 == nil {\n				return conn, nil\n			}\n','			err2 := conn.Authenticate(ctx, c, plain.New())\n			if err2 == nil || !errors.As(err2, &m) {\n				return conn, nil\n			}\n')])
R['auth-second-challenge']=('C19',[(N,'	if _, err = c.WriteOne(ctx, b); err != nil {\n		return err\n	}\n	return nil\n','	if _, err = c.WriteOne(ctx, b); err != nil && err != ErrUnexpectedAuthenticateContinue {\n		return err\n	}\n	return nil\n')])
R['pool-ctx-close']=('C20',[(PO,'	if !p.put(conn) {','	if ctx.Err() != nil || !p.put(conn) {')])
R['pool-new-retry']=('C20',[(PO,'	r, err := conn.Send(ctx, wt)\n	if err != nil {\n		conn.Close()\n','	r, err := conn.Send(ctx, wt)\n	if err != nil {\n		if len(r) > 0 && p.put(conn) {\n			return r, err\n		}\n		conn.Close()\n')])
R['dec-skip-zeros']=('C21',[(TD,'	// Scale\n','	for s := int(d[0]); s == 0 && len(b) > 2 && b[0] == \'0\'; {\n		b = b[1:]\n	}\n	// Scale\n')])
R['dec-coef-empty']=('C21',[(TD,'	for i < 31 && b[i] == 0 {','	for i < 31 && b[i] == 0 && (i < 24 || x[0] != 0) {')])
R['insert-end']=('C22',[(SL,'	if pos+n <= cap(in) {','	if pos == len(in) && pos+n <= cap(in) {\n		return in[:pos+n-1]\n	}\n	if pos+n <= cap(in) {')])
R['binary-zero']=('C23',[(COL,'	return c == Binary\n','	return uint8(c) == uint8(Binary)\n')])
R['capset-name']=('C24',[(XAu,'	n := proto.Size(&cs)\n','	if name == "" {\n		cs.Capabilities.Capabilities = nil\n	}\n	n := proto.Size(&cs)\n')])
R['auth-start-mech']=('C24',[(XAu,'	if len(authData) > 0 {\n','	if len(authData) > 1 {\n')])
