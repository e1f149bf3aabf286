R={}
B='builder.go'
import re
def ready(s):
    # every "if b.disabled { panic(X) } if b.err != nil { return }" becomes a helper call
    s=re.sub(r'	if b\.disabled \{\n		panic\(("[^"]*")\)\n	\}\n	if b\.err != nil \{\n		return( nil)?\n	\}\n',lambda m:f'	if !b.ready({m[1]}) {{\n		return{m[2] or ""}\n	}}\n',s)
    return s+'''
// ready panics while a callback builds, and reports whether nothing has failed yet.
func (b *Builder) ready(msg string) bool {
	if b.disabled {
		panic(msg)
	}
	return b.err == nil
}
'''
R['ready-helper']=[(B,ready,None)]
R['tx-table']=[(B,'''	start := "START TRANSACTION"
	switch isolationLevel {
	case IsolationLevelDefault:
	case IsolationLevelReadUncommitted:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED")
	case IsolationLevelReadCommitted:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL READ COMMITTED")
	case IsolationLevelRepeatableRead:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL REPEATABLE READ")
	case IsolationLevelSerializable:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL SERIALIZABLE")
	case IsolationLevelSnapshot:
		start = "START TRANSACTION WITH CONSISTENT SNAPSHOT"
	default:
		b.err = errors.New("unsupported transaction isolation level")
		return
	}
	b.StmtExecute(start)''','''	if isolationLevel > IsolationLevelSnapshot {
		b.err = errors.New("unsupported transaction isolation level")
		return
	}
	if stmt := isolationStmts[isolationLevel]; stmt != "" {
		b.StmtExecute(stmt)
	}
	if isolationLevel == IsolationLevelSnapshot {
		b.StmtExecute("START TRANSACTION WITH CONSISTENT SNAPSHOT")
	} else {
		b.StmtExecute("START TRANSACTION")
	}'''),(B,None,'''
var isolationStmts = [...]string{
	IsolationLevelReadUncommitted: "SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED",
	IsolationLevelReadCommitted:   "SET TRANSACTION ISOLATION LEVEL READ COMMITTED",
	IsolationLevelRepeatableRead:  "SET TRANSACTION ISOLATION LEVEL REPEATABLE READ",
	IsolationLevelSerializable:    "SET TRANSACTION ISOLATION LEVEL SERIALIZABLE",
	IsolationLevelSnapshot:        "",
}
''')]
R['tx-helper-func']=[(B,'''	start := "START TRANSACTION"
	switch isolationLevel {
	case IsolationLevelDefault:
	case IsolationLevelReadUncommitted:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED")
	case IsolationLevelReadCommitted:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL READ COMMITTED")
	case IsolationLevelRepeatableRead:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL REPEATABLE READ")
	case IsolationLevelSerializable:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL SERIALIZABLE")
	case IsolationLevelSnapshot:
		start = "START TRANSACTION WITH CONSISTENT SNAPSHOT"
	default:
		b.err = errors.New("unsupported transaction isolation level")
		return
	}
	b.StmtExecute(start)''','''	level, start, err := txStart(isolationLevel)
	if err != nil {
		b.err = err
		return
	}
	if level != "" {
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL " + level)
	}
	b.StmtExecute(start)'''),(B,None,'''
func txStart(l IsolationLevel) (level, start string, err error) {
	start = "START TRANSACTION"
	switch l {
	case IsolationLevelDefault:
	case IsolationLevelReadUncommitted:
		level = "READ UNCOMMITTED"
	case IsolationLevelReadCommitted:
		level = "READ COMMITTED"
	case IsolationLevelRepeatableRead:
		level = "REPEATABLE READ"
	case IsolationLevelSerializable:
		level = "SERIALIZABLE"
	case IsolationLevelSnapshot:
		start += " WITH CONSISTENT SNAPSHOT"
	default:
		return "", "", errors.New("unsupported transaction isolation level")
	}
	return level, start, nil
}
''')]
R['tx-map']=[(B,'''	switch isolationLevel {
	case IsolationLevelDefault:
	case IsolationLevelReadUncommitted:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED")
	case IsolationLevelReadCommitted:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL READ COMMITTED")
	case IsolationLevelRepeatableRead:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL REPEATABLE READ")
	case IsolationLevelSerializable:
		b.StmtExecute("SET TRANSACTION ISOLATION LEVEL SERIALIZABLE")
	case IsolationLevelSnapshot:''','''	stmt, ok := isolationStmts[isolationLevel]
	switch {
	case ok:
		b.StmtExecute(stmt)
	case isolationLevel == IsolationLevelDefault:
	case isolationLevel == IsolationLevelSnapshot:'''),(B,None,'''
var isolationStmts = map[IsolationLevel]string{
	IsolationLevelReadUncommitted: "SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED",
	IsolationLevelReadCommitted:   "SET TRANSACTION ISOLATION LEVEL READ COMMITTED",
	IsolationLevelRepeatableRead:  "SET TRANSACTION ISOLATION LEVEL REPEATABLE READ",
	IsolationLevelSerializable:    "SET TRANSACTION ISOLATION LEVEL SERIALIZABLE",
}
''')]
R['call-defer']=[(B,'''	b.disabled = true
	if err := f(&child); err != nil && child.err == nil {
		child.err = err
	}
	b.buf = child.buf
	b.err = child.err
	b.disabled = false
''','''	b.disabled = true
	err := f(&child)
	b.disabled = false
	b.buf, b.err = child.buf, child.err
	if b.err == nil {
		b.err = err
	}
''')]
R['call-new-child']=[(B,'''	var child = Builder{
		buf:      b.buf,
		err:      b.err,
		disabled: false,
	}
	b.disabled = true
	if err := f(&child); err != nil && child.err == nil {''','''	child := new(Builder)
	*child = *b
	b.disabled = true
	if err := f(child); err != nil && child.err == nil {''')]
R['insertrow-sprintf']=[(B,'''	id := "@id$" + strconv.Itoa(len(b.buf))
''','''	id := fmt.Sprintf("@id$%d", len(b.buf))
'''),(B,'''	"strconv"
''','')]
R['insertrow-formatint']=[(B,'''	id := "@id$" + strconv.Itoa(len(b.buf))
	b.StmtExecute("SET " + id + " = LAST_INSERT_ID()")
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprVariable(p, tag, id)
	}
}''','''	id := "@id$" + strconv.FormatInt(int64(n), 10)
	b.StmtExecute(fmt.Sprint("SET ", id, " = LAST_INSERT_ID()"))
	return variable(id)
}

func variable(name string) xproto.AppendExprFunc {
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprVariable(p, tag, name)
	}
}''')]
def patch(s):
    s=s.replace('	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))\n','	b.setLength(n)\n')
    return s
R['length-helper']=[(B,patch,None),('crud.go',patch,None),('crud.go','''import (
	"encoding/binary"

	''','''import (
	'''),(B,None,'''
// setLength sets the length of the message that starts at n and ends the buffer.
func (b *Builder) setLength(n int) {
	msg := b.buf[n:]
	binary.LittleEndian.PutUint32(msg[:4], uint32(len(msg)-4))
}
''')]
R['insert-validate-first']=[(B,'''	n := len(b.buf)

	b.buf = xproto.Insert(b.buf, name, columns)
	for i, row := range data {
		if len(row) != len(columns) {
			b.err = fmt.Errorf("unexpected number of values in row %d, expected %d, got %d", i, len(columns), len(row))
			return
		}
		b.buf, b.err = xproto.AppendInsertRow(b.buf, row)
		if b.err != nil {
			return
		}
	}
''','''	for i, row := range data {
		if len(row) != len(columns) {
			b.err = fmt.Errorf("unexpected number of values in row %d, expected %d, got %d", i, len(columns), len(row))
			return
		}
	}
	n := len(b.buf)
	b.buf = xproto.Insert(b.buf, name, columns)
	for _, row := range data {
		if b.buf, b.err = xproto.AppendInsertRow(b.buf, row); b.err != nil {
			return
		}
	}
''')]
R['insert-local-buf']=[(B,'''	n := len(b.buf)

	b.buf = xproto.Insert(b.buf, name, columns)
	for i, row := range data {
		if len(row) != len(columns) {
			b.err = fmt.Errorf("unexpected number of values in row %d, expected %d, got %d", i, len(columns), len(row))
			return
		}
		b.buf, b.err = xproto.AppendInsertRow(b.buf, row)
		if b.err != nil {
			return
		}
	}
	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
''','''	buf := xproto.Insert(b.buf, name, columns)
	for i := range data {
		if got := len(data[i]); got != len(columns) {
			b.err = fmt.Errorf("unexpected number of values in row %d, expected %d, got %d", i, len(columns), got)
			return
		}
		var err error
		if buf, err = xproto.AppendInsertRow(buf, data[i]); err != nil {
			b.err = err
			return
		}
	}
	msg := buf[len(b.buf):]
	binary.LittleEndian.PutUint32(msg, uint32(len(msg)-4))
	b.buf = buf
''')]
R['update-local']=[(B,'''	n := len(b.buf)

	b.buf, b.err = xproto.Update(b.buf, name, criteria)
	if b.err != nil {
		return
	}
	for k, v := range set {
		b.buf, b.err = xproto.AppendUpdateSet(b.buf, k, v)
		if b.err != nil {
			return
		}
	}
	binary''','''	n := len(b.buf)
	if b.buf, b.err = xproto.Update(b.buf, name, criteria); b.err != nil {
		return
	}
	for column := range set {
		if b.buf, b.err = xproto.AppendUpdateSet(b.buf, column, set[column]); b.err != nil {
			return
		}
	}
	binary''')]
R['update-via-f']=[(B,'''	n := len(b.buf)

	b.buf, b.err = xproto.Update(b.buf, name, criteria)
	if b.err != nil {
		return
	}
	for k, v := range set {
		b.buf, b.err = xproto.AppendUpdateSet(b.buf, k, v)
		if b.err != nil {
			return
		}
	}
	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
''','''	n := len(b.buf)
	u := Update{}
	u.buf, u.err = xproto.Update(b.buf, name, criteria)
	for k, v := range set {
		u.Set(k, v)
	}
	b.buf, b.err = u.buf, u.err
	if b.err == nil {
		binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
	}
''')]
R['send-inline']=[('xpipe.go','''	return x.send(ctx, s)
''','''	if x.disabled {
		panic("send called on non child")
	}
	err := x.err
	if err == nil {
		return s.Send(ctx, x.buf)
	}
	return nil, err
''')]
C='crud.go'
R['insertf-defer']=[(C,'''	b.disabled = true
	if err := f(i); err != nil && i.err == nil {
		i.err = err
	}
	b.disabled = false
	b.buf, b.err = i.buf, i.err
	if b.err != nil {
		return
	}
	binary''','''	b.locked(func() {
		if err := f(i); err != nil && i.err == nil {
			i.err = err
		}
	})
	if b.err = i.err; b.err != nil {
		b.buf = i.buf
		return
	}
	b.buf = i.buf
	binary'''),(C,None,'''
// locked runs f while b is disabled.
func (b *Builder) locked(f func()) {
	b.disabled = true
	f()
	b.disabled = false
}
''')]
R['row-early-return']=[(C,'''	if i.err == nil {
		i.buf, i.err = xproto.AppendInsertRow(i.buf, args)
	}
''','''	if i.err != nil {
		return
	}
	i.buf, i.err = xproto.AppendInsertRow(i.buf, args)
''')]
E='expr.go'
def binop(s):
    return re.sub(r'func (\w+)\(a, b interface\{\}\) exprFunc \{\n	return func\(p \[\]byte, tag uint8\) \(\[\]byte, error\) \{\n		return xproto\.AppendExprOperatorV\(p, tag, ("[^"]*"), a, b\)\n	\}\n\}',lambda m:f'func {m[1]}(a, b interface{{}}) exprFunc {{\n	return operator({m[2]}, a, b)\n}}',s)+'''
func operator(name string, params ...interface{}) exprFunc {
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprOperator(p, tag, name, params)
	}
}
'''
R['expr-operator-helper']=[(E,binop,None)]
R['in-helper']=[(E,'''	v := make([]interface{}, 1+len(b))
	v[0] = a
	copy(v[1:], b)
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprOperator(p, tag, "in", v)
	}''','''	v := list(a, b)
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprOperator(p, tag, "in", v)
	}'''),(E,'''	v := make([]interface{}, 1+len(b))
	v[0] = a
	copy(v[1:], b)
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprOperator(p, tag, "not_in", v)
	}''','''	v := list(a, b)
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprOperator(p, tag, "not_in", v)
	}'''),(E,None,'''
func list(a interface{}, b []interface{}) []interface{} {
	v := make([]interface{}, 0, 1+len(b))
	v = append(v, a)
	return append(v, b...)
}
''')]
R['in-loop']=[(E,'''	copy(v[1:], b)
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprOperator(p, tag, "in", v)
	}''','''	for i, x := range b {
		v[i+1] = x
	}
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprOperator(p, tag, "in", v)
	}''')]
R['wrapper-helper']=[(E,'''func (x xml) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return xproto.AppendAnyBytes(p, tag, x, xproto.ContentTypeXML), nil
}''','''func (x xml) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return octets(x, xproto.ContentTypeXML).any(p, tag)
}

type octetsValue struct {
	b  []byte
	ct xproto.ContentType
}

func octets(b []byte, ct xproto.ContentType) octetsValue { return octetsValue{b, ct} }

func (o octetsValue) any(p []byte, tag uint8) ([]byte, error) {
	return xproto.AppendAnyBytes(p, tag, o.b, o.ct), nil
}''')]
T='types/decimal.go'
R['muladd-loop']=[(T,'''	var c, h1, h2, h3, h4 uint64

	h1, x[0] = bits.Mul64(x[0], y)
	h2, x[1] = bits.Mul64(x[1], y)
	h3, x[2] = bits.Mul64(x[2], y)
	h4, x[3] = bits.Mul64(x[3], y)
	x[0], c = bits.Add64(x[0], z, 0)
	x[1], c = bits.Add64(x[1], h1, c)
	x[2], c = bits.Add64(x[2], h2, c)
	x[3], c = bits.Add64(x[3], h3, c)

	return h4 + c''','''	for i := range x {
		hi, lo := bits.Mul64(x[i], y)
		var c uint64
		x[i], c = bits.Add64(lo, z, 0)
		z = hi + c
	}
	return z''')]
R['muladd-interleaved']=[(T,'''	var c, h1, h2, h3, h4 uint64

	h1, x[0] = bits.Mul64(x[0], y)
	h2, x[1] = bits.Mul64(x[1], y)
	h3, x[2] = bits.Mul64(x[2], y)
	h4, x[3] = bits.Mul64(x[3], y)
	x[0], c = bits.Add64(x[0], z, 0)
	x[1], c = bits.Add64(x[1], h1, c)
	x[2], c = bits.Add64(x[2], h2, c)
	x[3], c = bits.Add64(x[3], h3, c)

	return h4 + c''','''	h1, l0 := bits.Mul64(x[0], y)
	h2, l1 := bits.Mul64(x[1], y)
	h3, l2 := bits.Mul64(x[2], y)
	h4, l3 := bits.Mul64(x[3], y)
	var c uint64
	l0, c = bits.Add64(l0, z, 0)
	l1, c = bits.Add64(l1, h1, c)
	l2, c = bits.Add64(l2, h2, c)
	l3, c = bits.Add64(l3, h3, c)
	*x = Uint256{l0, l1, l2, l3}
	return h4 + c''')]
R['decompose-helper']=[(T,'''		if x > 9 {
			negative = x == 0xB || x == 0xD
			break
		}
		ui256''','''		if x > 9 {
			negative = isNegative(x)
			break
		}
		ui256'''),(T,'''		if y > 9 {
			negative = y == 0xB || y == 0xD
			break
		}
		ui256''','''		if y > 9 {
			negative = isNegative(y)
			break
		}
		ui256'''),(T,None,'''
func isNegative(sign byte) bool {
	switch sign {
	case 0xB, 0xD:
		return true
	}
	return false
}
''')]
R['decompose-nibbles']=[(T,'''	for _, x := range d[1:] {
		y := x & 0x0F
		x >>= 4
		if x > 9 {
			negative = x == 0xB || x == 0xD
			break
		}
		ui256.MulAdd(10, uint64(x))
		if y > 9 {
			negative = y == 0xB || y == 0xD
			break
		}
		ui256.MulAdd(10, uint64(y))
	}''','''	for i := 2; i < 2*len(d); i++ {
		x := d[i/2]
		if i%2 == 0 {
			x >>= 4
		}
		x &= 0x0F
		if x > 9 {
			negative = x == 0xB || x == 0xD
			break
		}
		ui256.MulAdd(10, uint64(x))
	}''')]
R['decimal-string-insert']=[(T,'''		if i := len(b) - s; i >= 0 {
			b = append(b, 0)
			copy(b[i+1:], b[i:])
			b[i] = '.'
		}''','''		if i := len(b) - s; i >= 0 {
			return string(b[:i]) + "." + string(b[i:])
		}''')]
R['decimal-string-digits']=[(T,'''		if y > 9 {
			b = append(b, digits[x])
			if y != 0xB && y != 0xD {
				b = b[1:]
			}
			break
		}
		b = append(b, digits[x], digits[y])''','''		b = append(b, '0'+x)
		if y > 9 {
			if y == 0xB || y == 0xD {
				break
			}
			b = b[1:]
			break
		}
		b = append(b, '0'+y)'''),(T,'''		maxLength = 77 // Maximum number of digits in a MySQL DECIMAL
		digits    = "0123456789"
''','''		maxLength = 77 // Maximum number of digits in a MySQL DECIMAL
''')]
R['appendbytes-loop']=[(T,'''	i := 0
	for i < 31 && b[i] == 0 {
		i++
	}
	return append(buf, b[i:]...)''','''	n := b[:]
	for len(n) > 1 && n[0] == 0 {
		n = n[1:]
	}
	return append(buf, n...)''')]
N='netx/connection/connection.go'
R['conn-write-helper']=[(N,'''
	deadline, _ := ctx.Deadline()
	if err := c.netConn.SetDeadline(deadline); err != nil {
		return nil, fmt.Errorf("SetDeadline failed: %w", err)
	}
	if _, err := c.netConn.Write(b); err != nil {
		return nil, fmt.Errorf("Write failed: %w", err)
	}
	return c.Read(''','''	if err := c.write(ctx, b); err != nil {
		return nil, err
	}
	return c.Read('''),(N,'''	deadline, _ := ctx.Deadline()
	if err := c.netConn.SetDeadline(deadline); err != nil {
		return nil, fmt.Errorf("SetDeadline failed: %w", err)
	}
	if _, err := c.netConn.Write(b); err != nil {
		return nil, fmt.Errorf("Write failed: %w", err)
	}
	return c.ReadResponsesToSlice(ctx, make([]netx.Response, 0, 16), b)
}
''','''	if err := c.write(ctx, b); err != nil {
		return nil, err
	}
	return c.ReadResponsesToSlice(ctx, nil, b)
}

func (c *conn) write(ctx context.Context, b []byte) error {
	deadline, _ := ctx.Deadline()
	if err := c.netConn.SetDeadline(deadline); err != nil {
		return fmt.Errorf("SetDeadline failed: %w", err)
	}
	if _, err := c.netConn.Write(b); err != nil {
		return fmt.Errorf("Write failed: %w", err)
	}
	return nil
}
''')]
R['conn-responses-shrink']=[(N,'''	for i := 0; i < len(b); i += 4 + int(binary.LittleEndian.Uint32(b[i:])) {
		rr, err := c.Read(ctx, mysqlx.ClientMessages_Type(b[i+4]))
		r = append(r, rr)
		if err != nil {
			return r, err
		}
	}
	return r, nil''','''	for len(b) > 0 {
		n := int(binary.LittleEndian.Uint32(b))
		rr, err := c.Read(ctx, mysqlx.ClientMessages_Type(b[4]))
		r = append(r, rr)
		if err != nil {
			return r, err
		}
		b = b[4+n:]
	}
	return r, nil''')]
R['conn-read-message']=[(N,'''		b, err := c.r.Peek(5)
		if err != nil {
			return nil, err
		}
		u := binary.LittleEndian.Uint32(b)
		st := mysqlx.ServerMessages_Type(b[4])
		c.r.Discard(5) // Peeked 5 bytes so Discard cannot fail.
		n := int(u)
		if n < 1 {
			return nil, fmt.Errorf("length too short, got %d", n)
		}
		n--
''','''		st, n, err := c.readHeader()
		if err != nil {
			return nil, err
		}
		var b []byte
'''),(N,None,'''
// readHeader reads the header of a message, and returns its type and the size of its body.
func (c *conn) readHeader() (mysqlx.ServerMessages_Type, int, error) {
	b, err := c.r.Peek(5)
	if err != nil {
		return 0, 0, err
	}
	n := int(binary.LittleEndian.Uint32(b))
	st := mysqlx.ServerMessages_Type(b[4])
	c.r.Discard(5) // Peeked 5 bytes so Discard cannot fail.
	if n < 1 {
		return 0, 0, fmt.Errorf("length too short, got %d", n)
	}
	return st, n - 1, nil
}
''')]
R['conn-read-error-helper']=[(N,'''			var er mysqlx.Error

			defer c.r.Discard(n)
			if err := proto.Unmarshal(b, &er); err != nil {
				return nil, fmt.Errorf("failed to unmarshal Error: %w", err)
			}
			e := &MySqlXError{
				Severity: er.GetSeverity(),
				Code:     er.GetCode(),
				SqlState: er.GetSqlState(),
				Msg:      er.GetMsg(),
			}
			if e.IsFatal() {
				return e, e
			}
			switch ct {
			case mysqlx.ClientMessages_SESS_RESET,
				mysqlx.ClientMessages_SESS_AUTHENTICATE_START,
				mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE:
				return e, e
			}
			return e, nil
''','''			e, err := unmarshalError(b)
			c.r.Discard(n)
			if err != nil {
				return nil, err
			}
			if e.IsFatal() || isSession(ct) {
				return e, e
			}
			return e, nil
'''),(N,None,'''
func isSession(ct mysqlx.ClientMessages_Type) bool {
	return ct == mysqlx.ClientMessages_SESS_RESET ||
		ct == mysqlx.ClientMessages_SESS_AUTHENTICATE_START ||
		ct == mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE
}

func unmarshalError(b []byte) (*MySqlXError, error) {
	var er mysqlx.Error
	if err := proto.Unmarshal(b, &er); err != nil {
		return nil, fmt.Errorf("failed to unmarshal Error: %w", err)
	}
	return &MySqlXError{er.GetSeverity(), er.GetCode(), er.GetSqlState(), er.GetMsg()}, nil
}
''')]
R['conn-read-discard-unread']=[(N,'''		case mysqlx.ServerMessages_NOTICE:

		case''','''		case'''),(N,'''				if n > cap(buf) {
					buf = make([]byte, n)
				}
				b = buf[:n]
				if _, err := io.ReadFull(c.r, b); err != nil {
					return nil, err
				}
				n = 0 // Read n bytes, no need to Discard()''','''				b = make([]byte, n)
				if _, err := io.ReadFull(c.r, b); err != nil {
					return nil, err
				}
				n = 0 // Read n bytes, no need to Discard()'''),(N,'''	var buf []byte
	var cmd''','''	var cmd''')]
R['conn-authenticate-shape']=[(N,'''	_, err := c.WriteOne(ctx, b)
	if err == nil {
		return err
	}
	var ac *ErrRequireAuthenticateContinue
	if !errors.As(err, &ac) {
		return err
	}
	continuer, ok := starter.(authentication.StartContinuer)
	if !ok {
		return ErrUnexpectedAuthenticateContinue
	}
	b = continuer.Continue(buf[:0], credentials, ac.AuthData)
	if _, err = c.WriteOne(ctx, b); err != nil {
		return err
	}
	return nil''','''	_, err := c.WriteOne(ctx, b)
	var ac *ErrRequireAuthenticateContinue
	if err == nil || !errors.As(err, &ac) {
		return err
	}
	if continuer, ok := starter.(authentication.StartContinuer); ok {
		_, err = c.WriteOne(ctx, continuer.Continue(buf[:0], credentials, ac.AuthData))
		return err
	}
	return ErrUnexpectedAuthenticateContinue''')]
R['conn-issecure-if']=[(N,'''	switch c.netConn.(type) {
	case *tls.Conn, *net.UnixConn:
		return true
	}
	return false''','''	if _, ok := c.netConn.(*tls.Conn); ok {
		return true
	}
	_, ok := c.netConn.(*net.UnixConn)
	return ok''')]
K='netx/connector/connector.go'
R['connector-starttls']=[(K,'''	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
		b, err := xproto.CapabilitySet("tls", true)
		if err != nil {
			conn.Close()
			return nil, err
		}
		// @TODO response test
		if _, err := conn.Send(ctx, b); err != nil {
			conn.Close()
			return nil, err
		}
		tlsConn := tls.Client(netConn, c.tlsConfig)
		if err := tlsConn.Handshake(); err != nil {
			tlsConn.Close()
			return nil, fmt.Errorf("failed TLS handshake: %w", err)
		}
		conn.Reset(tlsConn)
	}
''','''	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
		b, err := xproto.CapabilitySet("tls", true)
		if err == nil {
			// @TODO response test
			_, err = conn.Send(ctx, b)
		}
		if err != nil {
			conn.Close()
			return nil, err
		}
		tlsConn, err := c.handshake(netConn)
		if err != nil {
			return nil, err
		}
		conn.Reset(tlsConn)
	}
'''),(K,None,'''
func (c *Connector) handshake(netConn net.Conn) (*tls.Conn, error) {
	tlsConn := tls.Client(netConn, c.tlsConfig)
	if err := tlsConn.Handshake(); err != nil {
		tlsConn.Close()
		return nil, fmt.Errorf("failed TLS handshake: %w", err)
	}
	return tlsConn, nil
}
''')]
R['connector-auth-flat']=[(K,'''	if err := conn.Authenticate(ctx, c, c.authentication); err != nil {
		var m *connection.MySqlXError
		if errors.As(err, &m) && m.Code == errs.ErAccessDeniedError && conn.IsSecure() {
			// Connected securely, so can attempt to authenticate with PLAIN,
			// which will populate the cache for caching_sha2 and sha256_password to start working
			if err2 := conn.Authenticate(ctx, c, plain.New()); err2 == nil {
				return conn, nil
			}
		}
		conn.Close()
		return nil, err
	}
	return conn, nil''','''	err = conn.Authenticate(ctx, c, c.authentication)
	if err == nil {
		return conn, nil
	}
	if conn.IsSecure() && accessDenied(err) {
		// Connected securely, so can attempt to authenticate with PLAIN,
		// which will populate the cache for caching_sha2 and sha256_password to start working
		if conn.Authenticate(ctx, c, plain.New()) == nil {
			return conn, nil
		}
	}
	conn.Close()
	return nil, err'''),(K,None,'''
func accessDenied(err error) bool {
	var m *connection.MySqlXError
	return errors.As(err, &m) && m.Code == errs.ErAccessDeniedError
}
''')]
R['connector-defer-close']=[(K,'''func (c *Connector) New(ctx context.Context) (netx.Conn, error) {
	netConn, err :=''','''func (c *Connector) New(ctx context.Context) (_ netx.Conn, err error) {
	netConn, err :='''),(K,'''	conn := connection.New(netConn)

''','''	conn := connection.New(netConn)
	defer func() {
		if err != nil {
			conn.Close()
		}
	}()

'''),(K,'''		if err != nil {
			conn.Close()
			return nil, err
		}
		// @TODO response test
		if _, err := conn.Send(ctx, b); err != nil {
			conn.Close()
			return nil, err
		}''','''		if err != nil {
			return nil, err
		}
		// @TODO response test
		if _, err := conn.Send(ctx, b); err != nil {
			return nil, err
		}'''),(K,'''			tlsConn.Close()
			return nil''','''			return nil'''),(K,'''		conn.Close()
		return nil, err
	}
	return conn, nil''','''		return nil, err
	}
	return conn, nil''')]
M='netx/connector/authentication/mysql41/mysql41.go'
R['mysql41-sum']=[(M,'''		h1 := ad[i : i+sha1.Size]
		h2 := ad[i+sha1.Size:]

		h := sha1.New()
		h.Write([]byte(c.Password()))
		h.Sum(h1[:0])

		h.Reset()
		h.Write(h1)
		h.Sum(h2[:0])

		h.Reset()
		h.Write(authData)
		h.Write(h2)
		h.Sum(h2[:0])

		for i, x := range h1 {
			h2[i] ^= x
		}
		hex.Encode(ad[i:], h2)''','''		h1 := sha1.Sum([]byte(c.Password()))
		h2 := sha1.Sum(h1[:])
		h := sha1.New()
		h.Write(authData)
		h.Write(h2[:])
		h.Sum(h2[:0])
		for k := range h2 {
			h2[k] ^= h1[k]
		}
		hex.Encode(ad[i:], h2[:])''')]
R['mysql41-append']=[(M,'''	buf, ad := slice.Allocate(buf, n)

	i := copy(ad, c.Database())
	ad[i] = 0
	i++
	i += copy(ad[i:], c.UserName())
	ad[i] = 0
	i++
	if len''','''	buf, ad := slice.Allocate(buf, n)

	i := copy(ad, c.Database()+"\\x00"+c.UserName()+"\\x00")
	if len''')]
H='netx/connector/authentication/sha256/sha256.go'
R['sha256-scramble-helper']=[(H,'''	h1 := ad[i : i+sha256.Size]
	h2 := ad[i+sha256.Size:]

	h := sha256.New()
	h.Write([]byte(c.Password()))
	h.Sum(h1[:0])

	h.Reset()
	h.Write(h1)
	h.Sum(h2[:0])

	h.Reset()
	h.Write(h2)
	h.Write(authData)
	h.Sum(h2[:0])

	for i, x := range h1 {
		h2[i] ^= x
	}
	hex.Encode(ad[i:], h2)
''','''	scramble(ad[i:], c.Password(), authData)
'''),(H,None,'''
func scramble(dst []byte, password string, challenge []byte) {
	h1 := dst[:sha256.Size]
	h2 := dst[sha256.Size:]

	h := sha256.New()
	h.Write([]byte(password))
	h.Sum(h1[:0])

	h.Reset()
	h.Write(h1)
	h.Sum(h2[:0])

	h.Reset()
	h.Write(h2)
	h.Write(challenge)
	h.Sum(h2[:0])

	for i, x := range h1 {
		h2[i] ^= x
	}
	hex.Encode(dst, h2)
}
''')]
PL='netx/connector/authentication/plain/plain.go'
R['plain-append']=[(PL,'''	n := len(c.Database()) + 1 + len(c.UserName()) + 1 + len(c.Password())

	buf, ad := slice.Allocate(buf, n)

	i := copy(ad, c.Database())
	ad[i] = 0
	i++
	i += copy(ad[i:], c.UserName())
	ad[i] = 0
	i++
	copy(ad[i:], c.Password())

	return xproto.AuthenticateStart(buf, "PLAIN", ad)''','''	ad := make([]byte, 0, len(c.Database())+1+len(c.UserName())+1+len(c.Password()))
	ad = append(ad, c.Database()...)
	ad = append(ad, 0)
	ad = append(ad, c.UserName()...)
	ad = append(ad, 0)
	ad = append(ad, c.Password()...)
	return xproto.AuthenticateStart(buf, "PLAIN", ad)'''),(PL,'''	"github.com/renthraysk/xtorm/slice"
''','')]
CO='collation/collation.go'
R['collation-if']=[(CO,'''	if str, ok := collationMap[c]; ok {
		return str
	}
	return "Collation(" + strconv.FormatUint(uint64(c), 10) + ")"''','''	str, ok := collationMap[c]
	if !ok {
		str = fmt.Sprintf("Collation(%d)", uint(c))
	}
	return str'''),(CO,'''import "strconv"''','''import "fmt"''')]
R['collation-itoa']=[(CO,'''	return "Collation(" + strconv.FormatUint(uint64(c), 10) + ")"''','''	b := append([]byte(nil), "Collation("...)
	b = strconv.AppendUint(b, uint64(c), 10)
	return string(append(b, ')'))''')]
R['in-append-loop']=[(E,'''	v := make([]interface{}, 1+len(b))
	v[0] = a
	copy(v[1:], b)
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprOperator(p, tag, "in", v)
	}''','''	v := append(make([]interface{}, 0, 1+len(b)), a)
	for i := range b {
		v = append(v, b[i])
	}
	return func(p []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprOperator(p, tag, "in", v)
	}''')]
