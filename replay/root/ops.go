//go:build go1.22

package xtorm

import (
	"fmt"
	"testing"

	"github.com/golang/protobuf/proto"

	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_expr"
	z "github.com/renthraysk/xtorm/zzverif"
)

type encoder interface {
	AppendAny(p []byte, tag uint8) ([]byte, error)
	AppendExpr(p []byte, tag uint8) ([]byte, error)
}

func checkEnc(t *testing.T, i int, what string, enc func(p []byte, tag uint8) ([]byte, error), same func(b []byte, tag byte, v any) error, want any) {
	t.Helper()
	buf := z.Buf(i)
	tag := uint8(1 + i%15)
	keep := string(buf)
	desc := func() string { return fmt.Sprintf("%s (buffer len %d cap %d, tag %d)", what, len(buf), cap(buf), tag) }
	z.Guard(t, desc, func() {
		out, err := enc(buf, tag)
		if err != nil {
			z.Fail(t, "%s fails: %v", desc(), err)
		}
		if !z.Kept([]byte(keep), out) || string(buf) != keep {
			z.Fail(t, "%s changes bytes already in the buffer", desc())
		}
		if err := same(out[len(keep):], tag, want); err != nil {
			z.Fail(t, "%s: %v", desc(), err)
		}
	})
}

func TestC03(t *testing.T) {
	i := 0
	one := func(what string, e encoder, want any) {
		i++
		checkEnc(t, i, what+".AppendAny", e.AppendAny, z.SameAny, want)
		checkEnc(t, i, what+".AppendExpr", e.AppendExpr, z.SameExpr, want)
	}
	lens := z.Lens()
	for _, n := range lens {
		s := z.Text(n)
		b := []byte(s)
		for _, c := range []uint64{0, 1, 45, 127, 128, 255, 300} {
			one(fmt.Sprintf("String{length %d, collation %d}", n, c), String{s, collation.Collation(c)}, z.Str{s, c})
			if n > 5000 {
				break
			}
		}
		d := fmt.Sprintf("(length %d)", n)
		one("XML"+d, XML(b), z.Octets{b, 3})
		one("XMLString"+d, XMLString(s), z.Octets{b, 3})
		one("JSON"+d, JSON(b), z.Octets{b, 2})
		one("JSONString"+d, JSONString(s), z.Octets{b, 2})
		one("Geometry"+d, Geometry(b), z.Octets{b, 1})
	}
	for _, h := range z.Ints() {
		one(fmt.Sprintf("String{abc, collation %d}", h), String{"abc", collation.Collation(h)}, z.Str{"abc", uint64(collation.Collation(h))})
	}
	one("XML(nil)", XML(nil), nil)
	one("JSON(nil)", JSON(nil), nil)
	one("Geometry(nil)", Geometry(nil), nil)
}

func TestC06(t *testing.T) {
	i := 0
	one := func(what string, f exprFunc, want any) {
		i++
		checkEnc(t, i, what, f, z.SameExpr, want)
	}
	u1 := map[string]func(any) exprFunc{"Not": Not, "Plus": Plus, "Minus": Minus}
	b2 := map[string]func(a, b any) exprFunc{"And": And, "Or": Or, "Xor": Xor, "Eq": Eq, "Neq": Neq, "Lte": Lte, "Lt": Lt, "Gt": Gt, "Gte": Gte,
		"BitAnd": BitAnd, "BitOr": BitOr, "BitXor": BitXor, "LeftShift": LeftShift, "RightShift": RightShift, "Add": Add, "Sub": Sub, "Mul": Mul,
		"Div": Div, "IntDiv": IntDiv, "Mod": Mod, "Is": Is, "IsNot": IsNot, "Regexp": Regexp, "NotRegexp": NotRegexp, "Like": Like, "NotLike": NotLike,
		"ContIn": ContIn, "NotContIn": NotContIn, "Overlaps": Overlaps, "NotOverlaps": NotOverlaps}
	names := map[string]string{"Not": "!", "Plus": "sign_plus", "Minus": "sign_minus",
		"And": "&&", "Or": "||", "Xor": "xor", "Eq": "==", "Neq": "!=", "Lte": "<=", "Lt": "<", "Gt": ">", "Gte": ">=",
		"BitAnd": "&", "BitOr": "|", "BitXor": "^", "LeftShift": "<<", "RightShift": ">>",
		"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "IntDiv": "div", "Mod": "%",
		"Is": "is", "IsNot": "is_not", "Regexp": "regexp", "NotRegexp": "not_regexp", "Like": "like", "NotLike": "not_like",
		"ContIn": "cont_in", "NotContIn": "not_cont_in", "Overlaps": "overlaps", "NotOverlaps": "not_overlaps"}
	vals := []any{1, "x", nil, []byte("b"), z.Text(127), z.Text(300), z.Text(16390), uint64(1 << 63)}
	for n, f := range u1 {
		for _, a := range vals {
			one(n, f(a), z.Op{names[n], []any{a}})
		}
	}
	for n, f := range b2 {
		for k, a := range vals {
			b := vals[(k+3)%len(vals)]
			one(n, f(a, b), z.Op{names[n], []any{a, b}})
			if n == "And" || n == "Eq" {
				for _, b := range vals {
					one(n, f(a, b), z.Op{names[n], []any{a, b}})
				}
			}
		}
		one(n+" nested", f(Eq(Column("a"), 1), f(2, "q")), z.Op{names[n], []any{z.Op{"==", []any{z.Col("a"), 1}}, z.Op{names[n], []any{2, "q"}}}})
	}
	one("Between", Between(1, "b", nil), z.Op{"between", []any{1, "b", nil}})
	one("NotBetween", NotBetween(1, "b", nil), z.Op{"not_between", []any{1, "b", nil}})
	one("Default", Default(), z.Op{"default", nil})
	one("RowCount", RowCount(), z.Call{"ROW_COUNT", nil})
	one("LastInsertID", LastInsertID(), z.Call{"LAST_INSERT_ID", nil})
	for _, n := range z.Lens() {
		one("Column", Column(z.Text(n)), z.Col(z.Text(n)))
	}
	for _, u := range []DateUnit{UnitMicroSecond, UnitSecond, UnitMinute, UnitHour, UnitDay, UnitWeek, UnitMonth, UnitQuarter, UnitYear, UnitSecondMicrosecond,
		UnitMinuteMicrosecond, UnitMinuteSecond, UnitHourMicrosecond, UnitHourSecond, UnitHourMinute, UnitDayMicrosecond, UnitDaySecond, UnitDayMinute, UnitDayHour, "", "X", DateUnit(z.Text(200))} {
		one("DateAdd", DateAdd("2020-01-01", 5, u), z.Op{"date_add", []any{"2020-01-01", 5, []byte(u)}})
		one("DateSub", DateSub("2020-01-01", 5, u), z.Op{"date_sub", []any{"2020-01-01", 5, []byte(u)}})
	}
	units := map[DateUnit]string{UnitMicroSecond: "MICROSECOND", UnitSecond: "SECOND", UnitMinute: "MINUTE", UnitHour: "HOUR", UnitDay: "DAY", UnitWeek: "WEEK", UnitMonth: "MONTH",
		UnitQuarter: "QUARTER", UnitYear: "YEAR", UnitSecondMicrosecond: "SECOND_MICROSECOND", UnitMinuteMicrosecond: "MINUTE_MICROSECOND", UnitMinuteSecond: "MINUTE_SECOND",
		UnitHourMicrosecond: "HOUR_MICROSECOND", UnitHourSecond: "HOUR_SECOND", UnitHourMinute: "HOUR_MINUTE", UnitDayMicrosecond: "DAY_MICROSECOND", UnitDaySecond: "DAY_SECOND",
		UnitDayMinute: "DAY_MINUTE", UnitDayHour: "DAY_HOUR"}
	for k, v := range units {
		if string(k) != v {
			z.Fail(t, "the unit %s is spelled %q", v, string(k))
		}
	}
	for _, m := range []int{0, 1, 2, 3, 5, 17, 130, 1000} {
		list := make([]any, m)
		for j := range list {
			list[j] = j * 3
			if j%7 == 2 {
				list[j] = z.Text(j)
			}
		}
		orig := append([]any{}, list...)
		with := append([]any{"first"}, orig...)
		in, inv := In("first", list), InV("first", list...)
		nin, ninv := NotIn("first", list), NotInV("first", list...)
		cc := Concat(orig...)
		for j := range list {
			list[j] = "changed"
		}
		list = append(list, "more")
		one("In, list modified afterwards", in, z.Op{"in", with})
		one("InV, list modified afterwards", inv, z.Op{"in", with})
		one("NotIn, list modified afterwards", nin, z.Op{"not_in", with})
		one("NotInV, list modified afterwards", ninv, z.Op{"not_in", with})
		one("Concat", cc, z.Call{"CONCAT", orig})
		one("In, evaluated twice", in, z.Op{"in", with})
		// a list with spare capacity must not be written to
		sp := make([]any, m, m+8)
		copy(sp, orig)
		sp[:m+1][m] = "spare"
		In("a", sp)
		NotIn("a", sp)
		InV("a", sp...)
		for j, v := range orig {
			if fmt.Sprint(sp[j]) != fmt.Sprint(v) {
				z.Fail(t, "In changes the list it is given")
			}
		}
		if sp[:m+1][m] != "spare" {
			z.Fail(t, "In writes to the spare capacity of the list it is given")
		}
	}
	for _, v := range badValues() {
		fs := map[string]exprFunc{"Not": Not(v), "Eq": Eq(1, v), "Between": Between(1, v, 2), "In": In(1, []any{2, v}), "NotIn": NotIn(v, nil), "Concat": Concat("a", v, "b"), "DateAdd": DateAdd(v, 1, UnitDay)}
		for n, f := range fs {
			z.Guard(t, func() string { return n + " of " + z.Clip(v) }, func() {
				if _, err := f(z.Buf(2), 1); err == nil {
					z.Fail(t, "%s with operand %s is accepted", n, z.Clip(v))
				}
			})
		}
	}
}

func TestC07(t *testing.T) {
	i := 0
	for _, n := range z.Lens() {
		s := z.Text(n)
		i++
		builds(t, i, fmt.Sprintf("StmtExecute(sql of length %d)", n), func(b *Builder) { b.StmtExecute(s) }, fStmt(s))
		builds(t, i, fmt.Sprintf("Prepare(%d, sql of length %d)", i, n), func(b *Builder) { b.Prepare(uint32(i), s) }, fPrepare(uint32(i), s))
		if n < 20000 {
			builds(t, i, fmt.Sprintf("StmtExecute(sql of length %d, 7, same text)", n), func(b *Builder) { b.StmtExecute(s, 7, s) }, fStmt(s, 7, s))
		}
	}
	for _, u := range z.Ints() {
		id := uint32(u)
		i++
		builds(t, i, fmt.Sprintf("Prepare(%d)", id), func(b *Builder) { b.Prepare(id, "SELECT 1") }, fPrepare(id, "SELECT 1"))
		builds(t, i, fmt.Sprintf("Execute(%d)", id), func(b *Builder) { b.Execute(id, "a", 2) }, fExecute(id, "a", 2))
		builds(t, i, fmt.Sprintf("Execute(%d) without arguments", id), func(b *Builder) { b.Execute(id) }, fExecute(id))
		builds(t, i, fmt.Sprintf("Deallocate(%d)", id), func(b *Builder) { b.Deallocate(id) }, fDealloc(id))
	}
	argLists(func(args []any) {
		i++
		d := z.Clip(args)
		builds(t, i, "StmtExecute with "+d, func(b *Builder) { b.StmtExecute("SELECT ?", args...) }, fStmt("SELECT ?", args...))
		builds(t, i, "Execute with "+d, func(b *Builder) { b.Execute(300, args...) }, fExecute(300, args...))
		builds(t, i, "two statements with "+d, func(b *Builder) { b.Execute(1, args...); b.StmtExecute("x", args...) }, fExecute(1, args...), fStmt("x", args...))
	})
	for _, v := range badValues() {
		if _, ok := v.(exprFunc); ok {
			continue
		}
		for k := 0; k < 3; k++ {
			a := []any{1, 2, 3}
			a[k] = v
			fails(t, k, "StmtExecute with "+z.Clip(a), func(b *Builder) { b.StmtExecute("q", a...) })
			fails(t, k, "Execute with "+z.Clip(a), func(b *Builder) { b.Execute(1, a...) })
		}
	}
}

func TestC08(t *testing.T) {
	i := 0
	// InsertRow adds an insert, and a message that keeps the id it generated
	insertRow := func(what, table string, cols []string, row []any) {
		t.Helper()
		x, before := newBuilder(i)
		z.Guard(t, func() string { return what }, func() {
			x.InsertRow(table, cols, row)
			if x.Builder.err != nil {
				z.Fail(t, "%s fails: %v", what, x.Builder.err)
			}
			fs, err := z.Frames(x.buf[len(before):])
			if err != nil || len(fs) != 2 {
				z.Fail(t, "%s gives %d messages (%v)", what, len(fs), err)
			}
			w := fInsert(table, cols, row)
			if fs[0].Type != w.typ {
				z.Fail(t, "%s gives a message of type %d", what, fs[0].Type)
			}
			if err := z.Same(fs[0].Body, w.msg, w.want); err != nil {
				z.Fail(t, "%s: %v", what, err)
			}
		})
	}
	for _, n := range z.Lens() {
		i++
		s := z.Text(n)
		cols := []string{"a", s, ""}[:i%4%3+1]
		insertRow(fmt.Sprintf("InsertRow(table name of length %d)", n), s, []string{"a"}, []any{1})
		insertRow(fmt.Sprintf("InsertRow(column name of length %d)", n), "t", cols, []any{1, 2})
		insertRow(fmt.Sprintf("InsertRow(value of length %d)", n), "t", []string{"a"}, []any{s, []byte(s)})
		builds(t, i, fmt.Sprintf("Insert(table name of length %d)", n), func(b *Builder) { b.Insert(s, []string{"a"}, nil) }, fInsert(s, []string{"a"}))
		builds(t, i, fmt.Sprintf("Insert(column name of length %d)", n), func(b *Builder) { b.Insert("t", cols, nil) }, fInsert("t", cols))
		rows := [][]any{{s}, {1}, {[]byte(s)}}
		builds(t, i, fmt.Sprintf("Insert(value of length %d)", n), func(b *Builder) { b.Insert("t", []string{"a"}, rows) }, fInsert("t", []string{"a"}, rows...))
		builds(t, i, fmt.Sprintf("InsertF(value of length %d)", n), func(b *Builder) {
			b.InsertF("t", []string{"a"}, func(i *Insert) error {
				for _, r := range rows {
					i.RowV(r...)
				}
				return nil
			})
		}, fInsert("t", []string{"a"}, rows...))
	}
	argLists(func(args []any) {
		args = plainArgs(args)
		i++
		cols := make([]string, len(args))
		for k := range cols {
			cols[k] = fmt.Sprint("c", k)
		}
		d := z.Clip(args)
		insertRow("InsertRow of "+d, "t", cols, args)
		builds(t, i, "Insert of the row "+d+", twice", func(b *Builder) { b.Insert("t", cols, [][]any{args, args}) }, fInsert("t", cols, args, args))
		builds(t, i, "InsertF of the row "+d, func(b *Builder) {
			b.InsertF("t", cols, func(i *Insert) error { i.Row(args); i.RowV(1); i.RowV(); return nil })
		}, fInsert("t", cols, args, []any{1}, nil))
		if len(args) > 0 {
			fails(t, i, "Insert with a row that is too short", func(b *Builder) { b.Insert("t", cols, [][]any{args, args[1:], args}) })
		}
		fails(t, i, "Insert with a row that is too long", func(b *Builder) { b.Insert("t", cols, [][]any{append(args[:len(args):len(args)], 1)}) })
	})
	builds(t, 1, "Insert without columns and rows", func(b *Builder) { b.Insert("t", nil, nil) }, fInsert("t", nil))
	builds(t, 1, "Insert of 200 rows", func(b *Builder) {
		rows := make([][]any, 200)
		for k := range rows {
			rows[k] = []any{k}
		}
		b.Insert("t", []string{"a"}, rows)
	}, fInsert("t", []string{"a"}, func() (rows [][]any) {
		for k := 0; k < 200; k++ {
			rows = append(rows, []any{k})
		}
		return
	}()...))
	for _, v := range badValues() {
		for k := 0; k < 3; k++ {
			a := []any{1, 2, 3}
			a[k] = v
			c := []string{"a", "b", "c"}
			fails(t, k, "Insert with "+z.Clip(a), func(b *Builder) { b.Insert("q", c, [][]any{a, {1, 2, 3}}) })
			fails(t, k, "InsertRow with "+z.Clip(a), func(b *Builder) { b.InsertRow("q", c, a) })
			fails(t, k, "InsertF with "+z.Clip(a), func(b *Builder) {
				b.InsertF("q", c, func(i *Insert) error { i.Row([]any{1}); i.Row(a); i.Row([]any{2}); return nil })
			})
		}
	}
}

// decodeUpdate compares the assignments in any order when there are several.
func sameUpdate(body []byte, table string, crit any, sets map[string]any) error {
	got := &mysqlx_crud.Update{}
	if err := proto.Unmarshal(body, got); err != nil {
		return err
	}
	if len(got.Operation) != len(sets) {
		return fmt.Errorf("%d assignments, expected %d", len(got.Operation), len(sets))
	}
	var l []set
	for _, o := range got.Operation {
		v, ok := sets[o.GetSource().GetName()]
		if !ok {
			return fmt.Errorf("assignment to %q", o.GetSource().GetName())
		}
		l = append(l, set{o.GetSource().GetName(), v})
	}
	seen := map[string]bool{}
	for _, s := range l {
		if seen[s.name] {
			return fmt.Errorf("two assignments to %q", s.name)
		}
		seen[s.name] = true
	}
	f := fUpdate(table, crit, l...)
	return z.Same(body, f.msg, f.want)
}

func TestC09(t *testing.T) {
	i := 0
	upd := func(what, table string, ce exprFunc, crit any, sets map[string]any) {
		i++
		x, before := newBuilder(i)
		desc := func() string { return fmt.Sprintf("%s on a builder holding %d bytes", what, len(before)) }
		z.Guard(t, desc, func() {
			x.Update(table, ce, sets)
			if x.Builder.err != nil {
				z.Fail(t, "%s fails: %v", desc(), x.Builder.err)
			}
			if !z.Kept(before, x.Builder.buf) {
				z.Fail(t, "%s changes bytes already built", desc())
			}
			fs, err := z.Frames(x.Builder.buf[len(before):])
			if err != nil || len(fs) != 1 || fs[0].Type != 19 {
				z.Fail(t, "%s does not give one update message (%v)", desc(), err)
			}
			if err := sameUpdate(fs[0].Body, table, crit, sets); err != nil {
				z.Fail(t, "%s: %v", desc(), err)
			}
		})
	}
	for _, n := range z.Lens() {
		s := z.Text(n)
		i++
		upd(fmt.Sprintf("Update(table name of length %d)", n), s, nil, nil, map[string]any{"a": 1})
		upd(fmt.Sprintf("Update(column name of length %d)", n), "t", Eq(Column("x"), 1), z.Op{"==", []any{z.Col("x"), 1}}, map[string]any{s: "v", s + "x": 2})
		upd(fmt.Sprintf("Update(value of length %d)", n), "t", nil, nil, map[string]any{"a": s})
		upd(fmt.Sprintf("Update(criteria of length %d)", n), "t", Eq(Column(s), 1), z.Op{"==", []any{z.Col(s), 1}}, nil)
		crit := z.Op{"==", []any{z.Col("x"), s}}
		builds(t, i, fmt.Sprintf("Delete(table name of length %d)", n), func(b *Builder) { b.Delete(s, nil) }, fDelete(s, nil))
		builds(t, i, fmt.Sprintf("Delete(criteria with a text of length %d)", n), func(b *Builder) { b.Delete("t", Eq(Column("x"), s)) }, fDelete("t", crit))
		builds(t, i, fmt.Sprintf("UpdateF(column and value of length %d)", n), func(b *Builder) {
			b.UpdateF("t", Eq(Column("x"), s), func(u *Update) error { u.Set(s, s); u.Set("b", 2); u.Set(s, nil); return nil })
		}, fUpdate("t", crit, set{s, s}, set{"b", 2}, set{s, nil}))
		builds(t, i, fmt.Sprintf("UpdateF(table of length %d), no criteria", n), func(b *Builder) {
			b.UpdateF(s, nil, func(u *Update) error { return nil })
		}, fUpdate(s, nil))
	}
	// a criteria is taken over as its function encodes it, however small
	for _, raw := range []string{"\x08\x06", "\x08\x06\x30\x00", "\x08\x01", "\x08\x03"} {
		ce := func(p []byte, tag uint8) ([]byte, error) { return append(append(p, tag<<3|2, byte(len(raw))), raw...), nil }
		for name, op := range map[string]func(b *Builder){
			"Update":  func(b *Builder) { b.Update("t", ce, map[string]any{"a": 1}) },
			"UpdateF": func(b *Builder) { b.UpdateF("t", ce, func(u *Update) error { return nil }) },
			"Delete":  func(b *Builder) { b.Delete("t", ce) },
		} {
			what := fmt.Sprintf("%s with a criteria encoding as %x", name, raw)
			z.Guard(t, func() string { return what }, func() {
				x := New(0)
				op(&x.Builder)
				fs, err := z.Frames(x.Builder.buf)
				if err != nil || len(fs) != 1 || x.Builder.err != nil {
					z.Fail(t, "%s does not give one message (%v, %v)", what, err, x.Builder.err)
				}
				var c *mysqlx_expr.Expr
				if name == "Delete" {
					m := new(mysqlx_crud.Delete)
					err = proto.Unmarshal(fs[0].Body, m)
					c = m.GetCriteria()
				} else {
					m := new(mysqlx_crud.Update)
					err = proto.Unmarshal(fs[0].Body, m)
					c = m.GetCriteria()
				}
				var got []byte
				if err == nil && c != nil {
					got, err = proto.Marshal(c)
				}
				if err != nil || string(got) != raw {
					z.Fail(t, "%s gives criteria %x (%v)", what, got, err)
				}
			})
		}
	}
	m := map[string]any{}
	for k := 0; k < 150; k++ {
		m[fmt.Sprint("col", k)] = k
	}
	upd("Update with 150 assignments", "t", nil, nil, m)
	argLists(func(args []any) {
		args = plainArgs(args)
		m := map[string]any{}
		for k, a := range args {
			m[fmt.Sprint("c", k)] = a
		}
		upd("Update with values "+z.Clip(args), "t", nil, nil, m)
	})
	for k, v := range badValues() {
		fails(t, k, "Update with value "+z.Clip(v), func(b *Builder) { b.Update("q", nil, map[string]any{"a": v}) })
		fails(t, k, "Update with three values, one "+z.Clip(v), func(b *Builder) { b.Update("q", nil, map[string]any{"a": v, "b": 1, "c": 2}) })
		fails(t, k, "UpdateF with value "+z.Clip(v), func(b *Builder) {
			b.UpdateF("q", nil, func(u *Update) error { u.Set("a", 1); u.Set("b", v); u.Set("c", 1); return nil })
		})
		fails(t, k, "Update with criteria "+z.Clip(v), func(b *Builder) { b.Update("q", Eq(v, 1), nil) })
		fails(t, k, "UpdateF with criteria "+z.Clip(v), func(b *Builder) { b.UpdateF("q", Eq(v, 1), func(u *Update) error { u.Set("a", 1); return nil }) })
		fails(t, k, "Delete with criteria "+z.Clip(v), func(b *Builder) { b.Delete("q", Eq(v, 1)) })
	}
	fails(t, 1, "Delete with failing criteria", func(b *Builder) { b.Delete("q", failExpr) })
	fails(t, 1, "Update with failing criteria", func(b *Builder) { b.Update("q", failExpr, map[string]any{"a": 1}) })
	fails(t, 1, "UpdateF with failing criteria", func(b *Builder) { b.UpdateF("q", failExpr, func(u *Update) error { return nil }) })
}
