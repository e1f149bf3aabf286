package main

// Model of the protobuf library for the messages the repository marshals: the wire form follows from the
// field tags of the generated structs.

import (
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pbField struct {
	idx  int
	num  int
	wire string
	rep  bool
	req  bool
	typ  types.Type
}

func pbFields(st *types.Struct) []pbField {
	var fs []pbField
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i)).Get("protobuf")
		if tag == "" {
			continue
		}
		p := strings.Split(tag, ",")
		n, _ := strconv.Atoi(p[1])
		fs = append(fs, pbField{idx: i, num: n, wire: p[0], rep: p[2] == "rep", req: p[2] == "req", typ: st.Field(i).Type()})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].num < fs[j].num })
	return fs
}

// pbMessage is the wire form of the message behind p; ok is false when a required field is not set.
func (x *X) pbMessage(p PtrVal) (body []Piece, ok bool) {
	sv, isS := x.load(p, "protobuf").(StructVal)
	if !isS {
		x.unsupported("protobuf message %s", p.typ)
	}
	ok = true
	for _, f := range pbFields(sv.typ.Underlying().(*types.Struct)) {
		v := sv.fields[f.idx]
		if f.num > 15 {
			x.unsupported("protobuf field number %d", f.num)
		}
		one := func(v Value) {
			switch v := v.(type) {
			case PtrVal:
				if v.obj == nil {
					ok = ok && !f.req
					return
				}
				if _, isMsg := v.typ.Underlying().(*types.Struct); isMsg {
					b, good := x.pbMessage(v)
					ok = ok && good
					body = append(body, x.fld(f.num, b)...)
					return
				}
				w := x.load(v, "protobuf")
				switch f.wire {
				case "varint":
					t := w.(*Term)
					if t.sort.K == KBool {
						body = append(body, x.by(x.key(f.num, 0), x.tb.Ite(t, x.tb.BV(8, 1), x.tb.BV(8, 0)))...)
						return
					}
					_, signed, _ := intInfo(v.typ)
					body = append(body, x.vfld(f.num, x.tb.Conv(t, 64, signed))...)
					return
				case "bytes":
					body = append(body, x.fld(f.num, x.content(w))...)
					return
				}
			case SliceVal:
				if isByteType(v.elem) {
					if x.branch(v.isnil) {
						ok = ok && !f.req
						return
					}
					body = append(body, x.fld(f.num, x.content(v))...)
					return
				}
			}
			x.unsupported("protobuf field of type %s", f.typ)
		}
		if f.rep {
			s := v.(SliceVal)
			for _, sg := range x.subElems(s.obj, s.off, s.n) {
				if sg.n != nil {
					x.unsupported("protobuf message with a repeated field of unknown length")
				}
				one(sg.one)
			}
			continue
		}
		one(v)
	}
	return body, ok
}

func (x *X) pbArg(v Value) PtrVal {
	iv, ok := v.(IfaceVal)
	if ok && iv.term == nil {
		if p, ok := iv.val.(PtrVal); ok && p.obj != nil {
			return p
		}
	}
	x.unsupported("protobuf message argument")
	return PtrVal{}
}

func init() {
	size := func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		b, _ := x.pbMessage(x.pbArg(args[len(args)-1]))
		return x.ropeLen(b)
	}
	marshal := func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		b, ok := x.pbMessage(x.pbArg(args[len(args)-1]))
		if !ok {
			return TupleVal{x.nilSlice(types.Typ[types.Uint8]), x.freshErr("err")}
		}
		return TupleVal{x.makeR(RBuf{b}, types.NewSlice(types.Typ[types.Uint8]), "proto.Marshal", nil), IfaceVal{}}
	}
	why := "encodes the fields that are set, in field order, as the protobuf tags of the generated struct say"
	ext("github.com/golang/protobuf/proto.Size", why+" (length)", size)
	ext("github.com/golang/protobuf/proto.Marshal", why, marshal)
	ext("google.golang.org/protobuf/proto.Size", why+" (length)", size)
	ext("google.golang.org/protobuf/proto.Marshal", why, marshal)
	ext("github.com/golang/protobuf/proto.NewBuffer", "a buffer that appends to the given slice", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		el := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := x.newObj('s', el, "protobuf")
		x.st.vals[o.id] = args[0]
		return PtrVal{obj: o, typ: el}
	})
	ext("(*github.com/golang/protobuf/proto.Buffer).Bytes", "the bytes written so far", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		return x.st.vals[args[0].(PtrVal).obj.id]
	})
	ext("(*github.com/golang/protobuf/proto.Buffer).Marshal", why+", appended to the buffer", func(x *X, fn *ssa.Function, args []Value, in ssa.Instruction) Value {
		o := args[0].(PtrVal).obj
		b, ok := x.pbMessage(x.pbArg(args[1]))
		if !ok {
			return x.freshErr("err")
		}
		s := x.st.vals[o.id].(SliceVal)
		x.st.vals[o.id] = x.appendBytes(s, &RopeSeq{b}, x.ropeLen(b), x.pos2(in))
		return IfaceVal{}
	})
}
