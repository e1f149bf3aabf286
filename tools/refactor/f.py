import re
R={}; ONLY={}
N='netx/connection/connection.go'; K='netx/connector/connector.go'; PO='netx/pool/fifoch/fifoch.go'
B='builder.go'; C='crud.go'; TD='types/decimal.go'; SL='slice/slice.go'; PB='xproto/protobuf.go'; XP='xpipe.go'
XA='xproto/any.go'; XI='xproto/insert.go'; XU='xproto/update.go'; XX='xproto/xproto.go'; XPr='xproto/prepare.go'; XEx='xproto/expect.go'; XAu='xproto/authentication.go'; XS='xproto/scalar.go'
SH='netx/connector/authentication/sha256/sha256.go'; M41='netx/connector/authentication/mysql41/mysql41.go'; PL='netx/connector/authentication/plain/plain.go'

def sub(a,b,n=0):
    def f(s):
        assert re.search(a,s), a
        return re.sub(a,b,s,count=n)
    return f
HDR='''func appendAnyScalarHeader(p []byte, tag, size uint8, typ mysqlx_datatypes.Scalar_Type) []byte {
	return append(p, tag<<3|wireBytes, size+6,
		tagAnyType<<3|wireVarint, byte(mysqlx_datatypes.Any_SCALAR),
		tagAnyScalar<<3|wireBytes, size+2,
		tagScalarType<<3|wireVarint, byte(typ))
}

'''
R['any-scalar-header']=[(XA,'func appendAnyUint8(',HDR+'func appendAnyUint8('),
 (XA,sub(r'return append\(p, tag<<3\|wireBytes, (\d+),\n\t+tagAnyType<<3\|wireVarint, byte\(mysqlx_datatypes.Any_SCALAR\),\n\t+tagAnyScalar<<3\|wireBytes, (\d+),\n\t+tagScalarType<<3\|wireVarint, byte\((mysqlx_datatypes.Scalar_V_(?!NULL)\w+)\),\n', lambda m:'return append(appendAnyScalarHeader(p, tag, %d, %s),\n'%(int(m[2])-2,m[3])),0)]
R['any-zigzag-helper']=[(XA,'func appendAnyInt8(','func zigzag64(v int64) uint64 {\n	return uint64(v)<<1 ^ uint64(v>>63)\n}\n\nfunc appendAnyInt8('),
 (XA,'	x := (uint64(v) << 1) ^ uint64(v>>63)\n','	x := zigzag64(v)\n'),(XA,'	x := (uint32(v) << 1) ^ uint32(v>>31)\n','	x := uint32(zigzag64(int64(v)))\n'),(XA,'	x := (uint16(v) << 1) ^ uint16(v>>15)\n','	x := uint16(zigzag64(int64(v)))\n')]
R['any-int-widen']=[(XA,'		return appendAnyInt16(p, tag, v), nil','		return appendAnyInt64(p, tag, int64(v)), nil'),(XA,'		return appendAnyUint16(p, tag, v), nil','		return appendAnyUint32(p, tag, uint32(v)), nil'),(XA,'		return appendAnyUint8(p, tag, v), nil','		return appendAnyUint64(p, tag, uint64(v)), nil')]
R['any-varint-append']=[(XA,'func appendAnyUint8(','''func appendUvarint(p []byte, x uint64) []byte {
	for x >= 0x80 {
		p = append(p, byte(x)|0x80)
		x >>= 7
	}
	return append(p, byte(x))
}

func appendAnyUint8('''),(XA,sub(r'tagScalarUint<<3\|wireVarint, byte\(x\)\|0x80, byte\(x>>7\)\|0x80, byte\(x>>14\)\|0x80, byte\(x>>21\)\|0x80, byte\(x>>28\)\)\n\tn \+= len\(p\) - binary.MaxVarintLen32\n\tp\[n-1\] &= 0x7F\n\treturn p\[:n\]','tagScalarUint<<3|wireVarint)\n\treturn appendUvarint(p, uint64(x))'),0)]
R['any-octets-helper']=[(XA,sub(r'func AppendAnyBytesString\([^{]*\{\n(.*?)\n\}\n',lambda m:'''func AppendAnyBytesString(p []byte, tag uint8, str string, contentType ContentType) []byte {
	p, b := extendAnyOctets(p, tag, len(str), contentType)
	copy(b, str)
	return p
}

// extendAnyOctets appends an Any for n octets and returns where they go.
func extendAnyOctets(p []byte, tag uint8, n int, contentType ContentType) ([]byte, []byte) {
'''+m[1].replace('	n := len(str)\n','').replace('	copy(b[1+i:], str)\n	return p','	return p, b[1+i:]')+'\n}\n') if False else (lambda s: s),0)]
del R['any-octets-helper']
def octets(s):
    m=re.search(r'func AppendAnyBytesString\([^{]*\{\n(.*?)\n\}\n',s,re.S)
    body=m[1].replace('	n := len(str)\n','').replace('	copy(b[1+i:], str)\n	return p','	return p, b[1+i:]')
    new='''func AppendAnyBytesString(p []byte, tag uint8, str string, contentType ContentType) []byte {
	p, b := extendAnyOctets(p, tag, len(str), contentType)
	copy(b, str)
	return p
}

func extendAnyOctets(p []byte, tag uint8, n int, contentType ContentType) ([]byte, []byte) {
'''+body+'\n}\n'
    s=s.replace(m[0],new)
    m=re.search(r'func AppendAnyBytes\([^{]*\{\n(.*?)\n\}\n',s,re.S)
    return s.replace(m[0],'''func AppendAnyBytes(p []byte, tag uint8, bytes []byte, contentType ContentType) []byte {
	if bytes == nil {
		return appendAnyNull(p, tag)
	}
	p, b := extendAnyOctets(p, tag, len(bytes), contentType)
	copy(b, bytes)
	return p
}
''')
R['any-octets-helper']=[(XA,octets,0)]
R['any-bytesstring-conv']=[(XA,lambda s: re.sub(r'(func AppendAnyBytesString\([^{]*\{\n)(.*?)\n\}\n',r'\1	return AppendAnyBytes(p, tag, []byte(str), contentType)\n}\n',s,flags=re.S),0)]
R['any-time-patch-loop']=[(XA,lambda s: s.replace('''		panic("formatted time exceeds 117 bytes in length")
	}
	p[i+11] += byte(n)
	p[i+9] += byte(n)
	p[i+5] += byte(n)
	p[i+1] += byte(n)
''','''		panic("formatted time exceeds 117 bytes in length")
	}
	for _, at := range [...]int{1, 5, 9, 11} {
		p[i+at] += byte(n)
	}
'''),0)]
R['any-duration-scratch']=[(XA,lambda s: re.sub(r'(func appendAnyDuration\([^{]*\{\n).*?\n\}\n',r'''\1	var scratch [32]byte

	return AppendAnyBytes(p, tag, AppendDuration(scratch[:0], d), ContentTypePlain)
}
''',s,flags=re.S),0)]
R['any-nil-case']=[(XA,'''	if value == nil {
		return appendAnyNull(p, tag), nil
	}
typeSwitch:''','typeSwitch:'),(XA,'''	switch v := value.(type) {
	case int:
		if bits''','''	switch v := value.(type) {
	case nil:
		return appendAnyNull(p, tag), nil
	case int:
		if bits''')]
R['any-default-out']=[(XA,'''	default:
		if ae, ok := v.(AppendAny); ok {
			return ae.AppendAny(p, tag)
		}

		rv :=''','''	case AppendAny:
		return v.AppendAny(p, tag)

	default:
		rv :=''')]
R['duration-divmod-chain']=[(XS,'''	i := 2 * (u / uint64(time.Minute) % 60)
	j := 2 * (u / uint64(time.Second) % 60)
	return append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ''','''	secs := u / uint64(time.Second)
	mins := secs / 60
	i := 2 * (mins % 60)
	j := 2 * (secs % 60)
	return append(strconv.AppendUint(p, mins/60, 10), ''')]
R['duration-two-helper']=[(XS,'''	i := 2 * (u / uint64(time.Minute) % 60)
	j := 2 * (u / uint64(time.Second) % 60)
	return append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
}''','''	p = strconv.AppendUint(p, u/uint64(time.Hour), 10)
	p = appendTwo(p, u/uint64(time.Minute)%60)
	return appendTwo(p, u/uint64(time.Second)%60)
}

func appendTwo(p []byte, x uint64) []byte {
	p = append(p, ':')
	return append(p, smallsString[2*x:2*x+2]...)
}''')]
R['collection-helper']=[(XI,'func Insert(p','''// putCollection writes a Collection with the given name at b[i] and returns the index after it.
func putCollection(b []byte, i int, n0 int, name string) int {
	i += putUvarint(b[i:], uint64(n0))
	b[i] = tagCollectionName<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(len(name)))
	return i + copy(b[i:], name)
}

func Insert(p'''),(XI,'''	i := 6 + putUvarint(b[6:], uint64(n0))
	b[i] = tagCollectionName<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(n))
	i += copy(b[i:], tableName)
''','''	i := putCollection(b, 6, n0, tableName)
'''),(XU,'''	i := 6 + putUvarint(b[6:], uint64(n1))
	b[4] =''','''	i := putCollection(b, 6, n1, name)
	b[4] ='''),(XU,'''	b[i] = tagCollectionName<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(n))
	i += copy(b[i:], name)
	b[i] = tagUpdateDataModel''','''	b[i] = tagUpdateDataModel'''),(XX,'''	i := 6 + putUvarint(b[6:], uint64(n1))
	b[4] =''','''	putCollection(b, 6, n1, name)
	b[4] ='''),(XX,'''	b[i] = tagCollectionName<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(n))
	copy(b[i:], name)
''',''),(XX,'''	const (
		tagCollectionName   = 1
		tagCollectionSchema = 2
	)
''','')]
R['insert-prealloc']=[(XI,'''	for _, name := range names {
		var b []byte
		n := len(name)
		n0 := 1 + sizeVarint(uint(n)) + n

		p, b = slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
		b[0] = tagInsertProjection<<3 | wireBytes
		j := 1 + putUvarint(b[1:], uint64(n0))
		b[j] = tagColumnName<<3 | wireBytes
		j++
		j += putUvarint(b[j:], uint64(n))
		copy(b[j:], name)
	}
''','''	for k := 0; k < len(names); k++ {
		n := len(names[k])
		var size [binary.MaxVarintLen64]byte
		c := putUvarint(size[:], uint64(1+sizeVarint(uint(n))+n))
		p = append(p, tagInsertProjection<<3|wireBytes)
		p = append(p, size[:c]...)
		p = appendWireString(p, tagColumnName, names[k])
	}
'''),(XI,'import (\n','import (\n	"encoding/binary"\n')]
R['args-helper']=[(XX,'''	for _, arg := range args {
		var err error
		p, err = appendAny(p, tagStmtExecuteArgs, arg)
		if err != nil {
			return p, err
		}
	}
	binary''','''	p, err := appendAnys(p, tagStmtExecuteArgs, args)
	if err != nil {
		return p, err
	}
	binary'''),(XX,'func Delete(','''func appendAnys(p []byte, tag uint8, args []interface{}) ([]byte, error) {
	var err error
	for i := 0; err == nil && i < len(args); i++ {
		p, err = appendAny(p, tag, args[i])
	}
	return p, err
}

func Delete('''),(XPr,'''	for _, arg := range args {
		var err error
		p, err = appendAny(p, tagExecuteArgs, arg)
		if err != nil {
			return p, err
		}
	}
	binary''','''	p, err := appendAnys(p, tagExecuteArgs, args)
	if err != nil {
		return p, err
	}
	binary''')]
R['finish-frame']=[(PB,'func encodeBool(','''// finish sets the length of the message that starts at n.
func finish(p []byte, n int) []byte {
	x := uint32(len(p) - n - 4)
	p[n], p[n+1], p[n+2], p[n+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
	return p
}

func encodeBool('''),(XX,lambda s:re.sub(r'\tbinary.LittleEndian.PutUint32\(p\[(\w):\], uint32\(len\(p\)-\w-4\)\)\n\treturn p, nil',r'\treturn finish(p, \1), nil',s),0),(XPr,lambda s:re.sub(r'\tbinary.LittleEndian.PutUint32\(p\[(\w):\], uint32\(len\(p\)-\w-4\)\)\n\treturn p, nil',r'\treturn finish(p, \1), nil',s),0),(XEx,'	binary.LittleEndian.PutUint32(p[i:], uint32(len(p)-i-4))\n	return p','	return finish(p, i)'),(XAu,lambda s:s.replace('	binary.LittleEndian.PutUint32(p, uint32(len(p)-4))\n	return p','	return finish(p, 0)'),0)]
R['wire-shared']=[(PB,lambda s: re.sub(r'(func appendWireString\([^{]*\{\n).*?\n\}\n',r'''\1	return append(appendWireHeader(p, tag, len(value)), value...)
}

func appendWireHeader(p []byte, tag uint8, n int) []byte {
	var b [1 + binary.MaxVarintLen64]byte

	b[0] = tag<<3 | wireBytes
	return append(p, b[:1+putUvarint(b[1:], uint64(n))]...)
}
''',s,flags=re.S),0),(PB,lambda s: re.sub(r'(func appendWireBytes\([^{]*\{\n).*?\n\}\n',r'\1	return append(appendWireHeader(p, tag, len(value)), value...)\n}\n',s,flags=re.S),0)]
R['size-one']=[(PB,'	return int(9*uint32(bits.Len(x))+64) / 64','	return sizeVarint64(uint64(x))'),(PB,'	return int(9*uint32(bits.Len16(x))+64) / 64','	return sizeVarint64(uint64(x))'),(PB,'	return int(9*uint32(bits.Len32(x))+64) / 64','	return sizeVarint64(uint64(x))')]
R['dealloc-uvarint']=[(XPr,lambda s: re.sub(r'(\tn := sizeVarint32\(id\)\n)\tp = append\(p\[:\], 2\+uint8.*?\n\}\n',r'''	var b [binary.MaxVarintLen32]byte
	n := binary.PutUvarint(b[:], uint64(id))
	p = append(p, 2+uint8(n), 0, 0, 0, byte(mysqlx.ClientMessages_PREPARE_DEALLOCATE), tagDeallocateStmtId<<3|wireVarint)
	return append(p, b[:n]...)
}
''',s,flags=re.S),0)]
R['expect-noerror-closure']=[(XEx,'''	if value {
		return openConditionExpectNoErrorTrue
	}
	return openConditionExpectNoErrorFalse
}''','''	v := byte('0')
	if value {
		v = '1'
	}
	return func(b []byte) []byte {
		b = openConditionExpectNoErrorFalse(b)
		b[len(b)-1] = v
		return b
	}
}''')]
R['reset-finish']=[(XX,'''	if keepOpen {
		return append(p, 3, 0, 0, 0, byte(mysqlx.ClientMessages_SESS_RESET), tagResetKeepOpen<<3|wireVarint, 1)
	}
	return append(p, 1, 0, 0, 0, byte(mysqlx.ClientMessages_SESS_RESET))''','''	n := len(p)
	p = append(p, 1, 0, 0, 0, byte(mysqlx.ClientMessages_SESS_RESET))
	if keepOpen {
		p = append(p, tagResetKeepOpen<<3|wireVarint, 1)
		p[n] += 2
	}
	return p''')]
R['sha-sum256']=[(SH,lambda s: re.sub(r'\th := sha256.New\(\)\n.*?\tfor i, x := range h1 \{\n\t\th2\[i\] \^= x\n\t\}\n\thex.Encode\(ad\[i:\], h2\)\n','''	s1 := sha256.Sum256([]byte(c.Password()))
	s2 := sha256.Sum256(s1[:])
	s3 := sha256.Sum256(append(s2[:], authData...))
	for k := range s3 {
		s3[k] ^= s1[k]
	}
	hex.Encode(ad[i:], s3[:])
''',re.sub(r'\th1 := ad\[i.*?\n\th2 :=.*?\n','',s),flags=re.S),0)]
R['plain-string-concat']=[(PL,lambda s: re.sub(r'(\) Start\([^{]*\{\n).*?\n\}\n',r'''\1	return xproto.AuthenticateStart(buf, "PLAIN", []byte(c.Database()+"\\x00"+c.UserName()+"\\x00"+c.Password()))
}
''',s,flags=re.S).replace('	"github.com/renthraysk/xtorm/slice"\n',''),0)]
R['decimal-negative-helper']=[(TD,'type Decimal []byte\n','type Decimal []byte\n\nfunc isNegative(nibble byte) bool {\n	switch nibble {\n	case 0xB, 0xD:\n		return true\n	}\n	return false\n}\n'),(TD,'			negative = x == 0xB || x == 0xD\n','			negative = isNegative(x)\n'),(TD,'			negative = y == 0xB || y == 0xD\n','			negative = isNegative(y)\n')]
R['decimal-coefficient-shift']=[(TD,'''	binary.BigEndian.PutUint64(b[0:], x[3])
	binary.BigEndian.PutUint64(b[8:], x[2])
	binary.BigEndian.PutUint64(b[16:], x[1])
	binary.BigEndian.PutUint64(b[24:], x[0])
''','''	for k, limb := range x {
		binary.BigEndian.PutUint64(b[24-8*k:], limb)
	}
''')]
R['insert-gap-append']=[(SL,'''	p := make([]byte, len(in)+n, len(in)+n+512)
	copy(p, in[:pos])
	copy(p[pos+n:], in[pos:])
	return p''','''	p := make([]byte, 0, len(in)+n+512)
	p = append(p, in[:pos]...)
	return append(p[:pos+n], in[pos:]...)''')]
R['allocate-else']=[(SL,'''	if nn := len(in) + n; cap(in) >= nn {
		return in[:nn], in[len(in):nn]
	}
	in = make([]byte, n, 2*n+512)
	return in, in''','''	start := len(in)
	if free := cap(in) - start; free < n {
		in, start = make([]byte, 0, 2*n+512), 0
	}
	in = in[:start+n]
	return in, in[start:]''')]
R['conn-deadline-helper']=[(N,'func (c *conn) WriteOne(','''func (c *conn) write(ctx context.Context, b []byte) error {
	var deadline time.Time
	if d, ok := ctx.Deadline(); ok {
		deadline = d
	}
	if err := c.netConn.SetDeadline(deadline); err != nil {
		return fmt.Errorf("SetDeadline failed: %w", err)
	}
	if _, err := c.netConn.Write(b); err != nil {
		return fmt.Errorf("Write failed: %w", err)
	}
	return nil
}

func (c *conn) WriteOne('''),(N,'''{

	deadline, _ := ctx.Deadline()
	if err := c.netConn.SetDeadline(deadline); err != nil {
		return nil, fmt.Errorf("SetDeadline failed: %w", err)
	}
	if _, err := c.netConn.Write(b); err != nil {
		return nil, fmt.Errorf("Write failed: %w", err)
	}
''','''{
	if err := c.write(ctx, b); err != nil {
		return nil, err
	}
'''),(N,'''([]netx.Response, error) {
	deadline, _ := ctx.Deadline()
	if err := c.netConn.SetDeadline(deadline); err != nil {
		return nil, fmt.Errorf("SetDeadline failed: %w", err)
	}
	if _, err := c.netConn.Write(b); err != nil {
		return nil, fmt.Errorf("Write failed: %w", err)
	}
	return''','''([]netx.Response, error) {
	if err := c.write(ctx, b); err != nil {
		return nil, err
	}
	return'''),(N,'import (\n','import (\n	"time"\n')]
R['conn-responses-slice-frames']=[(N,'''	for i := 0; i < len(b); i += 4 + int(binary.LittleEndian.Uint32(b[i:])) {
		rr, err := c.Read(ctx, mysqlx.ClientMessages_Type(b[i+4]))
		r = append(r, rr)
		if err != nil {
			return r, err
		}
	}
	return r, nil''','''	var err error
	for len(b) > 0 && err == nil {
		var rr netx.Response
		size, ct := binary.LittleEndian.Uint32(b), mysqlx.ClientMessages_Type(b[4])
		b = b[4+int(size):]
		rr, err = c.Read(ctx, ct)
		r = append(r, rr)
	}
	return r, err''')]
R['conn-raises']=[(N,'''			if e.IsFatal() {
				return e, e
			}
			switch ct {
			case mysqlx.ClientMessages_SESS_RESET,
				mysqlx.ClientMessages_SESS_AUTHENTICATE_START,
				mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE:
				return e, e
			}
			return e, nil''','''			session := ct == mysqlx.ClientMessages_SESS_RESET ||
				ct == mysqlx.ClientMessages_SESS_AUTHENTICATE_START ||
				ct == mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE
			if !session && !e.IsFatal() {
				return e, nil
			}
			return e, e''')]
R['conn-metadata-fresh']=[(N,'''			if cmd == nil {
				cmd = new(mysqlx_resultset.ColumnMetaData)
			}
			if err''','''			cmd := new(mysqlx_resultset.ColumnMetaData)
			if err'''),(N,'	var cmd *mysqlx_resultset.ColumnMetaData\n','')]
R['connector-split']=[(K,'''	if err := conn.Authenticate(ctx, c, c.authentication); err != nil {
		var m *connection.MySqlXError
		if errors.As(err, &m) && m.Code == errs.ErAccessDeniedError && conn.IsSecure() {
			// Connected securely, so can attempt to authenticate with PLAIN,
			// which will populate the cache for caching_sha2 and sha256_password to start working
			if err2 := conn.Authenticate(ctx, c, plain.New()); err2 == nil {
				return conn, nil
			}
		}
		conn.Close()
		return nil, err
	}
	return conn, nil
}''','''	err = conn.Authenticate(ctx, c, c.authentication)
	if err != nil && conn.IsSecure() && accessDenied(err) {
		// Connected securely, so can attempt to authenticate with PLAIN,
		// which will populate the cache for caching_sha2 and sha256_password to start working
		if conn.Authenticate(ctx, c, plain.New()) == nil {
			err = nil
		}
	}
	if err != nil {
		conn.Close()
		return nil, err
	}
	return conn, nil
}

func accessDenied(err error) bool {
	var m *connection.MySqlXError
	if !errors.As(err, &m) {
		return false
	}
	return m.Code == errs.ErAccessDeniedError
}''')]
R['pool-discard-helper']=[(PO,'''	r, err := conn.Send(ctx, wt)
	if err != nil {
		conn.Close()
		return r, err
	}

	if !p.put(conn) {
		conn.Close()
	}
	return r, nil''','''	r, err := conn.Send(ctx, wt)
	if keep := err == nil && p.put(conn); !keep {
		conn.Close()
	}
	return r, err''')]
R['pool-put-chan-cap']=[(PO,'''	select {
	case p.ch <- conn:
		return true
	default:
		return false
	}''','''	kept := false
	select {
	case p.ch <- conn:
		kept = true
	default:
	}
	return kept''')]
R['tx-first-last']=[(B,'''	b.StmtExecute(start)
	b.call(f)
	b.StmtExecute("COMMIT")
}''','''	b.within(start, f, "COMMIT")
}

func (b *Builder) within(first string, f func(b *Builder) error, last string) {
	b.StmtExecute(first)
	b.call(f)
	b.StmtExecute(last)
}''')]
R['insertrow-via-insert']=[(B,'''	n := len(b.buf)
	b.buf = xproto.Insert(b.buf, name, columns)
	b.buf, b.err = xproto.AppendInsertRow(b.buf, row)
	if b.err != nil {
		return nil
	}
	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))

	// Gen''','''	b.InsertF(name, columns, func(i *Insert) error {
		i.Row(row)
		return nil
	})
	if b.err != nil {
		return nil
	}

	// Gen''')]
R['updatef-early']=[(C,'''	b.disabled = true
	if err := f(&u); err != nil && u.err == nil {
		u.err = err
	}
	b.disabled = false
''','''	b.disabled = true
	err := f(&u)
	b.disabled = false
	if u.err == nil {
		u.err = err
	}
''')]
