B='builder.go'; C='crud.go'; X='expr.go'
N='netx/connection/connection.go'; K='netx/connector/connector.go'; PO='netx/pool/fifoch/fifoch.go'
XA='xproto/any.go'; XE='xproto/expr.go'; XX='xproto/xproto.go'; XPr='xproto/prepare.go'; XU='xproto/update.go'; XI='xproto/insert.go'; SC='xproto/scalar.go'; XAu='xproto/authentication.go'; XEx='xproto/expect.go'
SL='slice/slice.go'; TD='types/decimal.go'; M41='netx/connector/authentication/mysql41/mysql41.go'
R={}
R['any-named-bool']=('C01',[(XA,'''		default:
			return nil, fmt.Errorf("unsupported''','''		case reflect.Bool:
			return appendAnyBool(p, tag, rv.Bool()), nil

		default:
			return nil, fmt.Errorf("unsupported''')])
R['any-zero-time']=('C01',[(XA,'''	case time.Time:
		return appendAnyTime''','''	case time.Time:
		if v.IsZero() {
			return appendAnyNull(p, tag), nil
		}
		return appendAnyTime''')])
R['any-bytes-empty']=('C01',[(XA,'	if bytes == nil {\n		return appendAnyNull','	if len(bytes) == 0 && contentType == ContentTypePlain && cap(bytes) == 0 {\n		return appendAnyNull')])
R['json-empty']=('C03',[(X,'	return xproto.AppendAnyBytesString(p, tag, string(j), xproto.ContentTypeJSON), nil','	if j == "" {\n		return xproto.AppendAnyBytes(p, tag, nil, xproto.ContentTypeJSON), nil\n	}\n	return xproto.AppendAnyBytesString(p, tag, string(j), xproto.ContentTypeJSON), nil')])
R['string-binary']=('C03',[(X,'	return xproto.AppendExprString(p, tag, s.Value, s.Collation), nil','	if s.Collation.IsBinary() {\n		return xproto.AppendExprBytesString(p, tag, s.Value, xproto.ContentTypePlain), nil\n	}\n	return xproto.AppendExprString(p, tag, s.Value, s.Collation), nil')])
R['dur-neg-zero']=('C04',[(SC,'		p = append(p, \'-\')\n','		if u >= uint64(time.Second) {\n			p = append(p, \'-\')\n		}\n')])
R['column-dot']=('C05',[(XE,'func AppendExprColumn(p []byte, tag uint8, name string) ([]byte, error) {\n','func AppendExprColumn(p []byte, tag uint8, name string) ([]byte, error) {\n	for len(name) > 2 && name[0] == \'`\' && name[len(name)-1] == \'`\' {\n		name = name[1 : len(name)-1]\n	}\n')])
R['call-no-params']=('C05',[(XE,'	i := len(p)\n	for j, param := range params {\n		var err error\n		p, err = appendExpr(p, tagFunctionCallParam, param)','	i := len(p)\n	if n := len(params); n > 255 {\n		params = params[:255]\n	}\n	for j, param := range params {\n		var err error\n		p, err = appendExpr(p, tagFunctionCallParam, param)')])
R['in-alias']=('C06',[(X,'	v := make([]interface{}, 1+len(b))\n	v[0] = a\n	copy(v[1:], b)\n	return func(p []byte, tag uint8) ([]byte, error) {\n		return xproto.AppendExprOperator(p, tag, "not_in", v)','	return func(p []byte, tag uint8) ([]byte, error) {\n		v := make([]interface{}, 1, 1+len(b))\n		v[0] = a\n		v = append(v, b...)\n		return xproto.AppendExprOperator(p, tag, "not_in", v)')])
R['in-single']=('C06',[(X,'	v := make([]interface{}, 1+len(b))\n	v[0] = a\n	copy(v[1:], b)\n	return func(p []byte, tag uint8) ([]byte, error) {\n		return xproto.AppendExprOperator(p, tag, "in", v)','	if len(b) == 1 {\n		return Eq(a, b[0])\n	}\n	v := make([]interface{}, 1+len(b))\n	v[0] = a\n	copy(v[1:], b)\n	return func(p []byte, tag uint8) ([]byte, error) {\n		return xproto.AppendExprOperator(p, tag, "in", v)')])
R['stmt-semicolon']=('C07',[(XX,'	x := uint(len(stmt))\n','	if l := len(stmt); l > 1 && stmt[l-1] == \';\' {\n		stmt = stmt[:l-1]\n	}\n	x := uint(len(stmt))\n')])
R['insert-dup-column']=('C08',[(XI,'	for _, name := range names {\n','	for k, name := range names {\n		if k > 0 && name == names[k-1] {\n			continue\n		}\n')])
R['insert-empty-row']=('C08',[(XI,'	const rowSizeSize = 2\n','	const rowSizeSize = 2\n	if len(row) == 0 {\n		return p, nil\n	}\n')])
R['set-self']=('C09',[(C,'	if u.err == nil {\n','	if u.err == nil && name != "" {\n')])
R['update-empty-name']=('C09',[(XU,'	if criteria != nil {\n		return criteria(p, tagUpdateCriteria)\n	}\n	return p, nil','	if criteria != nil {\n		q, err := criteria(p, tagUpdateCriteria)\n		if err == nil && len(q)-len(p) < 5 {\n			q = p\n		}\n		return q, err\n	}\n	return p, nil')])
R['expect-empty']=('C12',[(B,'	b.call(f)\n	b.buf = xproto.ExpectClose(b.buf)','	n := len(b.buf)\n	b.call(f)\n	if b.err == nil && len(b.buf) == n {\n		b.buf = b.buf[:n-12]\n		return\n	}\n	b.buf = xproto.ExpectClose(b.buf)')])
R['expect-field-late']=('C12',[(XEx,'	return func(p []byte) []byte {\n		n := len(field)\n','	if field == "" {\n		return func(p []byte) []byte { return p }\n	}\n	return func(p []byte) []byte {\n		n := len(field)\n')])
R['tx-empty']=('C11',[(B,'	b.call(f)\n	b.StmtExecute("COMMIT")','	n := len(b.buf)\n	b.call(f)\n	if b.err == nil && len(b.buf) == n {\n		b.StmtExecute("ROLLBACK")\n		return\n	}\n	b.StmtExecute("COMMIT")')])
R['reset-keeps-err-buf']=('C13',[(B,'	b.buf = b.buf[:0]\n	b.err = nil\n','	if cap(b.buf) > 1<<20 {\n		b.buf = nil\n		return\n	}\n	b.buf = b.buf[:0]\n	b.err = nil\n')])
R['err-code-zero']=('C16',[(N,'			if e.IsFatal() {','			if e.Code == 0 && e.Severity == mysqlx.Error_ERROR {\n				return nil, nil\n			}\n			if e.IsFatal() {')])
R['deadline-only-if']=('C17',[(N,'''	deadline, _ := ctx.Deadline()
	if err := c.netConn.SetDeadline(deadline); err != nil {
		return nil, fmt.Errorf("SetDeadline failed: %w", err)
	}
	if _, err := c.netConn.Write(b); err != nil {
		return nil, fmt.Errorf("Write failed: %w", err)
	}
	return c.ReadResponsesToSlice''','''	if deadline, ok := ctx.Deadline(); ok {
		if err := c.netConn.SetDeadline(deadline); err != nil {
			return nil, fmt.Errorf("SetDeadline failed: %w", err)
		}
	}
	if _, err := c.netConn.Write(b); err != nil {
		return nil, fmt.Errorf("Write failed: %w", err)
	}
	return c.ReadResponsesToSlice''')])
R['pw-nul']=('C18',[(M41,'		h.Write([]byte(c.Password()))\n','		pw := c.Password()\n		for k := 0; k < len(pw); k++ {\n			if pw[k] == 0 {\n				pw = pw[:k]\n				break\n			}\n		}\n		h.Write([]byte(pw))\n')])
R['pw-long']=('C18',[(M41,'	if len(c.Password()) > 0 {\n		n += 1','	if len(c.Password()) > 0 && len(c.Password()) < 1<<16 {\n		n += 1'),(M41,'	if len(c.Password()) > 0 {\n		ad[i]','	if len(c.Password()) > 0 && len(c.Password()) < 1<<16 {\n		ad[i]')])
R['close-ctx-leak']=('C20',[(PO,'		case conn := <-ch:\n			conn.Close()','		case conn := <-ch:\n			if err := ctx.Err(); err != nil {\n				return err\n			}\n			conn.Close()')])
R['dec-all-scale']=('C21',[(TD,'if i := len(b) - s; i >= 0 {','if i := len(b) - s; i > 0 {')])
R['dec-zero-neg']=('C21',[(TD,'	coefficient = ui256.AppendBytes(buf[:0])\n','	if ui256 == (Uint256{}) {\n		negative = false\n	}\n	coefficient = ui256.AppendBytes(buf[:0])\n')])
R['insert-gap-end']=('C22',[(SL,'	if pos+n <= cap(in) {\n		return append(in[:pos+n], in[pos:]...)','	if len(in)+n <= cap(in) {\n		in = in[:len(in)+n]\n		for k := pos; k < len(in)-n; k++ {\n			in[k+n] = in[k]\n		}\n		return in')])
R['auth-empty-data']=('C24',[(XAu,'	p = appendWireBytes(p, tagAuthenticateContinueAuthData, authData)\n','	if len(authData) > 0 {\n		p = appendWireBytes(p, tagAuthenticateContinueAuthData, authData)\n	}\n')])
R['capture-nested']=('C15',[(B,'	return func(p []byte, tag uint8) ([]byte, error) {\n		return xproto.AppendExprVariable(p, tag, id)\n','	return func(p []byte, tag uint8) ([]byte, error) {\n		if len(row) == 0 {\n			return xproto.AppendExprVariable(p, tag, id[1:])\n		}\n		return xproto.AppendExprVariable(p, tag, id)\n')])
R['child-disabled-share']=('C14',[(B,'	b.disabled = true\n	if err := f(&child)','	b.disabled = len(b.buf) > 0\n	if err := f(&child)')])
R['lock-after']=('C14',[(C,'	b.disabled = true\n	if err := f(&u)','	b.disabled = criteria != nil\n	if err := f(&u)')])
