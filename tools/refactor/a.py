R={}
A='xproto/any.go'
R['any-uint64-binary-append']=[(A,'''	n := int(9*uint32(bits.Len64(x))+64) / 64
	p = append(p, tag<<3|wireBytes, 7+byte(n),
		tagAnyType<<3|wireVarint, byte(mysqlx_datatypes.Any_SCALAR),
		tagAnyScalar<<3|wireBytes, 3+byte(n),
		tagScalarType<<3|wireVarint, byte(mysqlx_datatypes.Scalar_V_UINT),
		tagScalarUint<<3|wireVarint, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56), 1)
	n += len(p) - binary.MaxVarintLen64
	p[n-1] &= 0x7F
	return p[:n]''','''	n := sizeVarint64(x)
	p = append(p, tag<<3|wireBytes, 7+byte(n),
		tagAnyType<<3|wireVarint, byte(mysqlx_datatypes.Any_SCALAR),
		tagAnyScalar<<3|wireBytes, 3+byte(n),
		tagScalarType<<3|wireVarint, byte(mysqlx_datatypes.Scalar_V_UINT),
		tagScalarUint<<3|wireVarint)
	return binary.AppendUvarint(p, x)''')]
R['any-uint64-loop']=[(A,'''	n := int(9*uint32(bits.Len64(x))+64) / 64
	p = append(p, tag<<3|wireBytes, 7+byte(n),
		tagAnyType<<3|wireVarint, byte(mysqlx_datatypes.Any_SCALAR),
		tagAnyScalar<<3|wireBytes, 3+byte(n),
		tagScalarType<<3|wireVarint, byte(mysqlx_datatypes.Scalar_V_UINT),
		tagScalarUint<<3|wireVarint, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56), 1)
	n += len(p) - binary.MaxVarintLen64
	p[n-1] &= 0x7F
	return p[:n]''','''	n := sizeVarint64(x)
	p = append(p, tag<<3|wireBytes, 7+byte(n),
		tagAnyType<<3|wireVarint, byte(mysqlx_datatypes.Any_SCALAR),
		tagAnyScalar<<3|wireBytes, 3+byte(n),
		tagScalarType<<3|wireVarint, byte(mysqlx_datatypes.Scalar_V_UINT),
		tagScalarUint<<3|wireVarint)
	for x >= 0x80 {
		p = append(p, byte(x)|0x80)
		x >>= 7
	}
	return append(p, byte(x))''')]
R['any-uint-helper']=[(A,'''func appendAnyUint32(p []byte, tag uint8, x uint32) []byte {
	n := (9*bits.Len32(x) + 64) / 64 // casts removed to squeak under inline cost limit
	p = append(p, tag<<3|wireBytes, 7+byte(n),
		tagAnyType<<3|wireVarint, byte(mysqlx_datatypes.Any_SCALAR),
		tagAnyScalar<<3|wireBytes, 3+byte(n),
		tagScalarType<<3|wireVarint, byte(mysqlx_datatypes.Scalar_V_UINT),
		tagScalarUint<<3|wireVarint, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28))
	n += len(p) - binary.MaxVarintLen32
	p[n-1] &= 0x7F
	return p[:n]
}''','''func appendAnyUint32(p []byte, tag uint8, x uint32) []byte {
	return appendAnyUint64(p, tag, uint64(x))
}'''),(A,'''	case uint16:
		return appendAnyUint16(p, tag, v), nil''','''	case uint16:
		return appendAnyUint32(p, tag, uint32(v)), nil''')]
R['any-bytes-generic']=[(A,'''	if bytes == nil {
		return appendAnyNull(p, tag)
	}
	n := len(bytes)
	n0 := 1 + sizeVarint(uint(n)) + n // Scalar_Octets size
	if contentType != ContentTypePlain {
		n0 += 1 + sizeVarint(uint(contentType))
	}
	n1 := 3 + sizeVarint(uint(n0)) + n0 // Scalar size
	n2 := 3 + sizeVarint(uint(n1)) + n1 // Any size

	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n2))+n2)

	i := putUvarint(b[1:], uint64(n2))
	b[0] = tag<<3 | wireBytes
	b = b[1+i:]
	// Any
	i = putUvarint(b[3:], uint64(n1))
	b[0] = tagAnyType<<3 | wireVarint
	b[1] = byte(mysqlx_datatypes.Any_SCALAR)
	b[2] = tagAnyScalar<<3 | wireBytes
	b = b[3+i:]
	// Scalar
	i = putUvarint(b[3:], uint64(n0))
	b[0] = tagScalarType<<3 | wireVarint
	b[1] = byte(mysqlx_datatypes.Scalar_V_OCTETS)
	b[2] = tagScalarOctets<<3 | wireBytes
	b = b[3+i:]

	// Scalar_Octets
	if contentType != ContentTypePlain {
		i = putUvarint(b[1:], uint64(contentType))
		b[0] = tagOctetContentType<<3 | wireVarint
		b = b[1+i:]
	}
	i = putUvarint(b[1:], uint64(n))
	b[0] = tagOctetValue<<3 | wireBytes
	copy(b[1+i:], bytes)
	return p
}
''','''	if bytes == nil {
		return appendAnyNull(p, tag)
	}
	p, b := anyOctets(p, tag, len(bytes), contentType)
	copy(b, bytes)
	return p
}

// anyOctets appends all but the value, and returns where that goes.
func anyOctets(p []byte, tag uint8, n int, contentType ContentType) ([]byte, []byte) {
	n0 := 1 + sizeVarint(uint(n)) + n // Scalar_Octets size
	if contentType != ContentTypePlain {
		n0 += 1 + sizeVarint(uint(contentType))
	}
	n1 := 3 + sizeVarint(uint(n0)) + n0 // Scalar size
	n2 := 3 + sizeVarint(uint(n1)) + n1 // Any size

	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n2))+n2)

	b[0] = tag<<3 | wireBytes
	i := putUvarint(b[1:], uint64(n2))
	b = b[1+i:]
	// Any
	b[0] = tagAnyType<<3 | wireVarint
	b[1] = byte(mysqlx_datatypes.Any_SCALAR)
	b[2] = tagAnyScalar<<3 | wireBytes
	b = b[3+putUvarint(b[3:], uint64(n1)):]
	// Scalar
	b[0] = tagScalarType<<3 | wireVarint
	b[1] = byte(mysqlx_datatypes.Scalar_V_OCTETS)
	b[2] = tagScalarOctets<<3 | wireBytes
	b = b[3+putUvarint(b[3:], uint64(n0)):]
	// Scalar_Octets
	if contentType != ContentTypePlain {
		b[0] = tagOctetContentType<<3 | wireVarint
		b = b[1+putUvarint(b[1:], uint64(contentType)):]
	}
	b[0] = tagOctetValue<<3 | wireBytes
	return p, b[1+putUvarint(b[1:], uint64(n)):]
}
''')]
R['any-recursive']=[(A,'''			value = rv.Elem().Interface()
			goto typeSwitch
''','''			return appendAny(p, tag, rv.Elem().Interface())
'''),(A,'''typeSwitch:
	switch v''','''	switch v''')]
R['any-loop-not-goto']=[(A,'''	if value == nil {
		return appendAnyNull(p, tag), nil
	}
typeSwitch:
	switch v''','''	if value == nil {
		return appendAnyNull(p, tag), nil
	}
	for rv := reflect.ValueOf(value); rv.Kind() == reflect.Ptr; rv = reflect.ValueOf(value) {
		if ae, ok := value.(AppendAny); ok {
			return ae.AppendAny(p, tag)
		}
		if rv.IsNil() {
			return appendAnyNull(p, tag), nil
		}
		value = rv.Elem().Interface()
	}
	switch v'''),(A,'''		rv := reflect.ValueOf(value)
		switch rv.Kind() {
		case reflect.Ptr:
			if rv.IsNil() {
				return appendAnyNull(p, tag), nil
			}
			value = rv.Elem().Interface()
			goto typeSwitch

		default:
			return nil, fmt.Errorf("unsupported type %T, a %s", value, rv.Kind())
		}
''','''		return nil, fmt.Errorf("unsupported type %T, a %s", value, reflect.ValueOf(value).Kind())
''')]
R['any-time-helper']=[(A,'''	n := len(p) - i - 12
	if n >= 0x80-10 {
		panic("formatted time exceeds 117 bytes in length")
	}
	p[i+11] += byte(n)
	p[i+9] += byte(n)
	p[i+5] += byte(n)
	p[i+1] += byte(n)
	return p
}
''','''	n := len(p) - i - 12
	if n >= 0x80-10 {
		panic("formatted time exceeds 117 bytes in length")
	}
	addLen(p[i:i+12], byte(n))
	return p
}

func addLen(p []byte, n byte) {
	for _, i := range [...]int{1, 5, 9, 11} {
		p[i] += n
	}
}
''')]
P_='xproto/protobuf.go'
R['size-formula']=[(P_,'''	return int(9*uint32(bits.Len(x))+64) / 64
''','''	return (bits.Len(x|1) + 6) / 7
''')]
R['size-loop']=[(P_,'''	return int(9*uint32(bits.Len(x))+64) / 64
''','''	n := 1
	for x >= 0x80 {
		x >>= 7
		n++
	}
	return n
''')]
R['put-loop']=[(P_,'''	if x < 0x80 {
		b[0] = byte(x)
		return 1
	}
	return binary.PutUvarint(b, x)''','''	i := 0
	for x >= 0x80 {
		b[i] = byte(x) | 0x80
		x >>= 7
		i++
	}
	b[i] = byte(x)
	return i + 1''')]
R['wire-string-put']=[(P_,'''func appendWireString(p []byte, tag uint8, value string) []byte {
	x := uint64(len(value))
	n := sizeVarint64(x)
	p = append(p, tag<<3|wireBytes, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56)|0x80, 1)
	n += len(p) - binary.MaxVarintLen64
	p[n-1] &= 0x7F
	return append(p[:n], value...)
}''','''func appendWireString(p []byte, tag uint8, value string) []byte {
	return append(appendWireHeader(p, tag, len(value)), value...)
}

func appendWireHeader(p []byte, tag uint8, size int) []byte {
	var a [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(a[:], uint64(size))
	return append(append(p, tag<<3|wireBytes), a[:n]...)
}''')]
S='xproto/scalar.go'
R['duration-vars']=[(S,'''	i := 2 * (u / uint64(time.Minute) % 60)
	j := 2 * (u / uint64(time.Second) % 60)
	return append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])''','''	seconds := u / uint64(time.Second)
	minutes := seconds / 60
	hours := minutes / 60
	p = strconv.AppendUint(p, hours, 10)
	p = appendTwo(append(p, ':'), minutes-60*hours)
	return appendTwo(append(p, ':'), seconds-60*minutes)'''),(S,None,'''
func appendTwo(p []byte, x uint64) []byte {
	return append(p, smallsString[2*x:2*x+2]...)
}
''')]
R['duration-digits']=[(S,'''':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])''','''':', byte('0'+i/20), byte('0'+i/2%10), ':', byte('0'+j/20), byte('0'+j/2%10))''')]
E_='xproto/expr.go'
R['expr-operator-index-loop']=[(E_,'''	for j, param := range params {
		var err error
		p, err = appendExpr(p, tagOperatorParam, param)
		if err != nil {
			return p, fmt.Errorf("parameter %d: %w", j, err)
		}
	}''','''	var err error
	for j := 0; j < len(params); j++ {
		if p, err = appendExpr(p, tagOperatorParam, params[j]); err != nil {
			return p, fmt.Errorf("parameter %d: %w", j, err)
		}
	}''')]
R['expr-params-helper']=[(E_,'''	for j, param := range params {
		var err error
		p, err = appendExpr(p, tagOperatorParam, param)
		if err != nil {
			return p, fmt.Errorf("parameter %d: %w", j, err)
		}
	}''','''	p, err := appendExprParams(p, tagOperatorParam, params)
	if err != nil {
		return p, err
	}'''),(E_,'''	for j, param := range params {
		var err error
		p, err = appendExpr(p, tagFunctionCallParam, param)
		if err != nil {
			return p, fmt.Errorf("parameter %d: %w", j, err)
		}
	}''','''	p, err := appendExprParams(p, tagFunctionCallParam, params)
	if err != nil {
		return p, err
	}'''),(E_,None,'''
func appendExprParams(p []byte, tag uint8, params []interface{}) ([]byte, error) {
	for i, param := range params {
		var err error
		if p, err = appendExpr(p, tag, param); err != nil {
			return p, fmt.Errorf("parameter %d: %w", i, err)
		}
	}
	return p, nil
}
''')]
R['expr-operator-scratch']=[(E_,'''	i := len(p)
	for j, param := range params {
		var err error
		p, err = appendExpr(p, tagOperatorParam, param)
		if err != nil {
			return p, fmt.Errorf("parameter %d: %w", j, err)
		}
	}
	nParams := len(p) - i
	nOperator := 1 + sizeVarint(uint(len(name))) + len(name) + nParams
	nExpr := 3 + sizeVarint(uint(nOperator)) + nOperator
	p = slice.Insert(p, i, 1+sizeVarint(uint(nExpr))+nExpr-nParams)
	p[i] = tag<<3 | wireBytes
	i++
	i += putUvarint(p[i:], uint64(nExpr))
	p[i] = tagExprType<<3 | wireVarint
	i++
	p[i] = byte(mysqlx_expr.Expr_OPERATOR)
	i++
	p[i] = tagExprOperator<<3 | wireBytes
	i++
	i += putUvarint(p[i:], uint64(nOperator))
	p[i] = tagOperatorName<<3 | wireBytes
	i++
	i += putUvarint(p[i:], uint64(len(name)))
	copy(p[i:], name)
	return p, nil''','''	var operands []byte
	for j, param := range params {
		var err error
		operands, err = appendExpr(operands, tagOperatorParam, param)
		if err != nil {
			return p, fmt.Errorf("parameter %d: %w", j, err)
		}
	}
	nOperator := 1 + sizeVarint(uint(len(name))) + len(name) + len(operands)
	nExpr := 3 + sizeVarint(uint(nOperator)) + nOperator
	p = append(p, tag<<3|wireBytes)
	p = binary.AppendUvarint(p, uint64(nExpr))
	p = append(p, tagExprType<<3|wireVarint, byte(mysqlx_expr.Expr_OPERATOR), tagExprOperator<<3|wireBytes)
	p = binary.AppendUvarint(p, uint64(nOperator))
	p = appendWireString(p, tagOperatorName, name)
	return append(p, operands...), nil''')]
R['expr-column-append']=[(E_,'''	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n1))+n1)

	b[0] = tag<<3 | wireBytes
	i := 1 + putUvarint(b[1:], uint64(n1))
	b[i] = tagExprType<<3 | wireVarint
	i++
	b[i] = byte(mysqlx_expr.Expr_IDENT)
	i++
	b[i] = tagExprIdentifier<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(n0))
	b[i] = tagColumnIdentifierName<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(n))
	copy(b[i:], name)
	return p, nil''','''	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n1))+n1)

	put := func(x ...byte) {
		b = b[copy(b, x):]
	}
	put(tag<<3 | wireBytes)
	b = b[putUvarint(b, uint64(n1)):]
	put(tagExprType<<3|wireVarint, byte(mysqlx_expr.Expr_IDENT), tagExprIdentifier<<3|wireBytes)
	b = b[putUvarint(b, uint64(n0)):]
	put(tagColumnIdentifierName<<3 | wireBytes)
	b = b[putUvarint(b, uint64(n)):]
	copy(b, name)
	return p, nil''')]
R['expr-switch-merged']=[(E_,'''	case int8:
		return appendExprInt64(p, tag, int64(vv)), nil
	case int16:
		return appendExprInt64(p, tag, int64(vv)), nil
	case int32:
		return appendExprInt64(p, tag, int64(vv)), nil
	case int64:
		return appendExprInt64(p, tag, vv), nil
	case int:
		return appendExprInt64(p, tag, int64(vv)), nil
''','''	case int8, int16, int32, int64, int:
		return appendExprInt64(p, tag, reflect.ValueOf(v).Int()), nil
'''),(E_,'''	"math/bits"
''','''	"math/bits"
	"reflect"
''')]
R['expr-func-first']=[(E_,'''	if v == nil {
		return appendExprNull(p, tag), nil
	}
	switch vv := v.(type) {
	case bool:''','''	switch vv := v.(type) {
	case nil:
		return appendExprNull(p, tag), nil
	case AppendExprFunc:
		return vv(p, tag)
	case bool:'''),(E_,'''	case AppendExprFunc:
		return vv(p, tag)
	default:
		if ae, ok := vv.(AppendExpr); ok {
			return ae.AppendExpr(p, tag)
		}
	}
	return p, fmt''','''	case AppendExpr:
		return vv.AppendExpr(p, tag)
	}
	return p, fmt''')]
I='xproto/insert.go'
R['insert-column-helper']=[(I,'''		var b []byte
		n := len(name)
		n0 := 1 + sizeVarint(uint(n)) + n

		p, b = slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
		b[0] = tagInsertProjection<<3 | wireBytes
		j := 1 + putUvarint(b[1:], uint64(n0))
		b[j] = tagColumnName<<3 | wireBytes
		j++
		j += putUvarint(b[j:], uint64(n))
		copy(b[j:], name)
	}
	return p
}
''','''		p = appendInsertColumn(p, name)
	}
	return p
}

func appendInsertColumn(p []byte, name string) []byte {
	n := len(name)
	n0 := 1 + sizeVarint(uint(n)) + n
	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
	b[0] = tagInsertProjection<<3 | wireBytes
	j := 1 + putUvarint(b[1:], uint64(n0))
	b[j] = tagColumnName<<3 | wireBytes
	j++
	j += putUvarint(b[j:], uint64(n))
	copy(b[j:], name)
	return p
}
''')]
R['insert-column-append']=[(I,'''		var b []byte
		n := len(name)
		n0 := 1 + sizeVarint(uint(n)) + n

		p, b = slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
		b[0] = tagInsertProjection<<3 | wireBytes
		j := 1 + putUvarint(b[1:], uint64(n0))
		b[j] = tagColumnName<<3 | wireBytes
		j++
		j += putUvarint(b[j:], uint64(n))
		copy(b[j:], name)
''','''		p = append(p, tagInsertProjection<<3|wireBytes)
		p = binary.AppendUvarint(p, uint64(1+sizeVarint(uint(len(name)))+len(name)))
		p = appendWireString(p, tagColumnName, name)
'''),(I,'''import (
''','''import (
	"encoding/binary"
''')]
R['insert-row-scratch']=[(I,'''	const rowSizeSize = 2

	p = append(p, tagInsertRow<<3|wireBytes, 0, 0) // rowSizeSize bytes
	i := len(p)
	for j, v := range row {
		var err error
		p, err = appendExpr(p, tagTypedRowField, v)
		if err != nil {
			return p, fmt.Errorf("failed to marshal column %d: %w", j, err)
		}
	}
	n := uint(len(p) - i)
	if d := sizeVarint(n) - rowSizeSize; d != 0 {
		p = append(p[:i+d], p[i:]...)
	}
	putUvarint(p[i-rowSizeSize:], uint64(n))
	return p, nil''','''	i := len(p)
	for j, v := range row {
		var err error
		p, err = appendExpr(p, tagTypedRowField, v)
		if err != nil {
			return p, fmt.Errorf("failed to marshal column %d: %w", j, err)
		}
	}
	n := uint(len(p) - i)
	p = slice.Insert(p, i, 1+sizeVarint(n))
	p[i] = tagInsertRow<<3 | wireBytes
	putUvarint(p[i+1:], uint64(n))
	return p, nil''')]
R['insert-row-branches']=[(I,'''	if d := sizeVarint(n) - rowSizeSize; d != 0 {
		p = append(p[:i+d], p[i:]...)
	}
	putUvarint(p[i-rowSizeSize:], uint64(n))
	return p, nil''','''	size := sizeVarint(n)
	switch {
	case size < rowSizeSize:
		copy(p[i-1:], p[i:])
		p = p[:len(p)-1]
	case size > rowSizeSize:
		p = slice.Insert(p, i, size-rowSizeSize)
	}
	putUvarint(p[i-rowSizeSize:], uint64(n))
	return p, nil''')]
U='xproto/update.go'
R['update-set-reorder']=[(U,'''	p = slice.Insert(p, i, 1+sizeVarint(uint(n2))+n2-nV)
	p[i] = tagUpdateUpdateOperation<<3 | wireBytes
	i++
	i += putUvarint(p[i:], uint64(n2))
	p[i] = tagUpdateOperationSource<<3 | wireBytes
	i++
	i += putUvarint(p[i:], uint64(n1))
	p[i] = tagColumnIdentifierName<<3 | wireBytes
	i++
	i += putUvarint(p[i:], uint64(n))
	i += copy(p[i:], name)
	p[i] = tagUpdateOperationOperation<<3 | wireVarint
	i++
	p[i] = byte(mysqlx_crud.UpdateOperation_SET)
	return p, nil''','''	p = slice.Insert(p, i, 1+sizeVarint(uint(n2))+n2-nV)
	b := p[i:]
	b[0] = tagUpdateUpdateOperation<<3 | wireBytes
	b = b[1+putUvarint(b[1:], uint64(n2)):]
	b[0] = tagUpdateOperationSource<<3 | wireBytes
	b = b[1+putUvarint(b[1:], uint64(n1)):]
	b[0] = tagColumnIdentifierName<<3 | wireBytes
	b = b[1+putUvarint(b[1:], uint64(n)):]
	b = b[copy(b, name):]
	b[0], b[1] = tagUpdateOperationOperation<<3|wireVarint, byte(mysqlx_crud.UpdateOperation_SET)
	return p, nil''')]
R['update-set-copy']=[(U,'''	i := len(p)
	p, err := appendExpr(p, tagUpdateOperationValue, value)
	if err != nil {
		return p, err
	}
	nV := len(p) - i
	n := len(name)''','''	v, err := appendExpr(nil, tagUpdateOperationValue, value)
	if err != nil {
		return p, err
	}
	nV := len(v)
	n := len(name)'''),(U,'''	p = slice.Insert(p, i, 1+sizeVarint(uint(n2))+n2-nV)
	p[i] =''','''	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n2))+n2)
	i := len(p) - len(b)
	p[i] ='''),(U,'''	p[i] = byte(mysqlx_crud.UpdateOperation_SET)
	return p, nil''','''	p[i] = byte(mysqlx_crud.UpdateOperation_SET)
	copy(p[i+1:], v)
	return p, nil''')]
X_='xproto/xproto.go'
R['stmt-wire-string']=[(X_,'''	x := uint(len(stmt))
	n := len(p)
	p = append(p, 0, 0, 0, 0, byte(mysqlx.ClientMessages_SQL_STMT_EXECUTE),
		tagStmtExecuteStmt<<3|wireBytes, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56)|0x80, 1)
	i := len(p) + sizeVarint(x) - binary.MaxVarintLen64
	p[i-1] &= 0x7F
	p = append(p[:i], stmt...)
	for _, arg := range args {
		var err error
		p, err = appendAny(p, tagStmtExecuteArgs, arg)
		if err != nil {
			return p, err
		}
	}
	binary.LittleEndian.PutUint32(p[n:], uint32(len(p)-n-4))
	return p, nil
}
''','''	n := len(p)
	p = append(p, 0, 0, 0, 0, byte(mysqlx.ClientMessages_SQL_STMT_EXECUTE))
	p = appendWireString(p, tagStmtExecuteStmt, stmt)
	p, err := appendArgs(p, tagStmtExecuteArgs, args)
	if err != nil {
		return p, err
	}
	setLength(p[n:])
	return p, nil
}

func appendArgs(p []byte, tag uint8, args []interface{}) ([]byte, error) {
	var err error
	for i := range args {
		if p, err = appendAny(p, tag, args[i]); err != nil {
			break
		}
	}
	return p, err
}

func setLength(p []byte) {
	binary.LittleEndian.PutUint32(p, uint32(len(p)-4))
}
''')]
R['delete-append']=[(X_,'''	p, b := slice.ForAppend(p, 4+1+1+sizeVarint(uint(n1))+n1)
	i := 6 + putUvarint(b[6:], uint64(n1))
	b[4] = byte(mysqlx.ClientMessages_CRUD_DELETE)
	b[5] = tagDeleteCollection<<3 | wireBytes
	b[i] = tagCollectionName<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(n))
	copy(b[i:], name)
	if criteria''','''	p = append(p, 0, 0, 0, 0, byte(mysqlx.ClientMessages_CRUD_DELETE), tagDeleteCollection<<3|wireBytes)
	p = binary.AppendUvarint(p, uint64(n1))
	p = appendWireString(p, tagCollectionName, name)
	if criteria'''),(X_,'''	"github.com/renthraysk/xtorm/slice"
''','')]
R['delete-length-bytes']=[(X_,'''	binary.LittleEndian.PutUint32(p[s:], uint32(len(p)-s-4))
	return p, nil
}''','''	size := len(p) - s - 4
	p[s] = byte(size)
	p[s+1] = byte(size >> 8)
	p[s+2] = byte(size >> 16)
	p[s+3] = byte(size >> 24)
	return p, nil
}''') if False else (X_,'''	if criteria != nil {
		p, err = criteria(p, tagDeleteCriteria)
		if err != nil {
			return p, err
		}
	}
	binary.LittleEndian.PutUint32(p[s:], uint32(len(p)-s-4))
	return p, nil''','''	if criteria != nil {
		if p, err = criteria(p, tagDeleteCriteria); err != nil {
			return p, err
		}
	}
	size := len(p) - s - 4
	p[s] = byte(size)
	p[s+1] = byte(size >> 8)
	p[s+2] = byte(size >> 16)
	p[s+3] = byte(size >> 24)
	return p, nil''')]
PR='xproto/prepare.go'
R['prepare-append']=[(PR,'''	b := p
	p, b = slice.ForAppend(p, 4+1+n2)

	i := 6 + putUvarint(b[6:], uint64(id))
	binary.LittleEndian.PutUint32(b, uint32(1+n2))
	b[4] = byte(mysqlx.ClientMessages_PREPARE_PREPARE)
	b[5] = tagPrepareStmtId<<3 | wireVarint
	b[i] = tagPrepareStmt<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(n1))
	b[i] = tagPrepareOneOfType<<3 | wireVarint
	b[1+i] = byte(mysqlx_prepare.Prepare_OneOfMessage_STMT)
	b[2+i] = tagPrepareOneOfExecute<<3 | wireBytes
	i += 3
	i += putUvarint(b[i:], uint64(n0))
	b[i] = tagStmtExecuteStmt<<3 | wireBytes
	i++
	i += putUvarint(b[i:], uint64(n))
	copy(b[i:], stmt)
	return p''','''	p = binary.LittleEndian.AppendUint32(p, uint32(1+n2))
	p = append(p, byte(mysqlx.ClientMessages_PREPARE_PREPARE), tagPrepareStmtId<<3|wireVarint)
	p = binary.AppendUvarint(p, uint64(id))
	p = append(p, tagPrepareStmt<<3|wireBytes)
	p = binary.AppendUvarint(p, uint64(n1))
	p = append(p, tagPrepareOneOfType<<3|wireVarint, byte(mysqlx_prepare.Prepare_OneOfMessage_STMT), tagPrepareOneOfExecute<<3|wireBytes)
	p = binary.AppendUvarint(p, uint64(n0))
	return appendWireString(p, tagStmtExecuteStmt, stmt)'''),(PR,'''	"github.com/renthraysk/xtorm/slice"
''','')]
R['execute-append']=[(PR,'''		tagExecuteStmtId<<3|wireVarint, byte(id)|0x80, byte(id>>7)|0x80, byte(id>>14)|0x80, byte(id>>21)|0x80, byte(id>>28))
	i := len(p) - binary.MaxVarintLen32 + sizeVarint32(id)
	p[i-1] &= 0x7F
	p = p[:i]
	for''','''		tagExecuteStmtId<<3|wireVarint)
	p = binary.AppendUvarint(p, uint64(id))
	for''')]
EX='xproto/expect.go'
R['expect-wire-bytes']=[(EX,'''		n := len(field)
		n0 := 3 + sizeVarint(uint(n)) + n
		p = append(p, tagExpectOpenCond<<3|wireBytes, byte(n0)|0x80, byte(n0>>7)|0x80, byte(n0>>14)|0x80, byte(n0>>21)|0x80, byte(n0>>28))
		i := len(p) - binary.MaxVarintLen32 + sizeVarint(uint(n0))
		p[i-1] &= 0x7F
		p = append(p[:i], tagOpenConditionKey<<3|wireVarint, byte(mysqlx_expect.Open_Condition_EXPECT_FIELD_EXIST),
			tagOpenConditionValue<<3|wireBytes, byte(n)|0x80, byte(n>>7)|0x80, byte(n>>14)|0x80, byte(n>>21)|0x80, byte(n>>28))
		i = len(p) - binary.MaxVarintLen32 + sizeVarint(uint(n))
		p[i-1] &= 0x7F
		return append(p[:i], field...)''','''		n := len(field)
		p = append(p, tagExpectOpenCond<<3|wireBytes)
		p = binary.AppendUvarint(p, uint64(3+sizeVarint(uint(n))+n))
		p = append(p, tagOpenConditionKey<<3|wireVarint, byte(mysqlx_expect.Open_Condition_EXPECT_FIELD_EXIST))
		return appendWireString(p, tagOpenConditionValue, field)''')]
R['expect-open-index']=[(EX,'''	for _, appendCondition := range conditions {
		p = appendCondition(p)
	}''','''	for j := 0; j < len(conditions); j++ {
		p = conditions[j](p)
	}'''),(EX,'''	if value {
		return openConditionExpectNoErrorTrue
	}
	return openConditionExpectNoErrorFalse''','''	f := openConditionExpectNoErrorFalse
	if value {
		f = openConditionExpectNoErrorTrue
	}
	return f''')]
AU='xproto/authentication.go'
R['auth-helper']=[(AU,'''	p = append(p[len(p):], 0, 0, 0, 0, byte(mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE))
	p = appendWireBytes(p, tagAuthenticateContinueAuthData, authData)
	binary.LittleEndian.PutUint32(p, uint32(len(p)-4))
	return p
}''','''	p = begin(p, mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE)
	return finish(appendWireBytes(p, tagAuthenticateContinueAuthData, authData))
}

func begin(p []byte, t mysqlx.ClientMessages_Type) []byte {
	return append(p[len(p):], 0, 0, 0, 0, byte(t))
}

func finish(p []byte) []byte {
	binary.LittleEndian.PutUint32(p, uint32(len(p)-4))
	return p
}''')]
R['auth-capset-append']=[(AU,'''	n := proto.Size(&cs)
	b := make([]byte, 5+n)
	binary.LittleEndian.PutUint32(b, uint32(n+1))
	b[4] = byte(mysqlx.ClientMessages_CON_CAPABILITIES_SET)
	buf := proto.NewBuffer(b[:5])
	if err := buf.Marshal(&cs); err != nil {
		return nil, fmt.Errorf("failed to marshal CapabilitiesSet: %w", err)
	}
	return b, nil''','''	m, err := proto.Marshal(&cs)
	if err != nil {
		return nil, fmt.Errorf("failed to marshal CapabilitiesSet: %w", err)
	}
	b := make([]byte, 5, 5+len(m))
	binary.LittleEndian.PutUint32(b, uint32(len(m)+1))
	b[4] = byte(mysqlx.ClientMessages_CON_CAPABILITIES_SET)
	return append(b, m...), nil''')]
SL='slice/slice.go'
R['slice-forappend-append']=[(SL,'''	if nn := len(in) + n; cap(in) >= nn {
		head = in[:nn]
	} else {
		head = make([]byte, nn, 2*nn)
		copy(head, in)
	}
	tail = head[len(in):]
	return''','''	nn := len(in) + n
	if cap(in) < nn {
		grown := make([]byte, len(in), 2*nn)
		copy(grown, in)
		in = grown
	}
	return in[:nn], in[len(in):nn]''')]
R['slice-insert-one-path']=[(SL,'''	if pos+n <= cap(in) {
		return append(in[:pos+n], in[pos:]...)
	}
	p := make([]byte, len(in)+n, len(in)+n+512)
	copy(p, in[:pos])
	copy(p[pos+n:], in[pos:])
	return p''','''	size := len(in) + n
	if size <= cap(in) {
		p := in[:size]
		copy(p[pos+n:], in[pos:])
		return p
	}
	p := make([]byte, size, size+512)
	copy(p, in[:pos])
	copy(p[pos+n:], in[pos:])
	return p''')]
