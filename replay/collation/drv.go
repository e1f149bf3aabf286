//go:build go1.22

package collation

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
	"testing"

	z "github.com/renthraysk/xtorm/zzverif"
)

func TestC23(t *testing.T) {
	var ids []uint64
	for i := uint64(0); i < 70000; i++ {
		ids = append(ids, i)
	}
	ids = append(ids, z.Ints()...)
	ids = append(ids, z.Hints()...)
	for k := uint64(16); k < 64; k++ {
		for i := uint64(0); i < 310; i++ {
			ids = append(ids, 1<<k+i)
		}
	}
	for _, id := range ids {
		want, ok := zzNames[id]
		if !ok {
			want = fmt.Sprintf("Collation(%d)", id)
		}
		z.Guard(t, func() string { return fmt.Sprintf("Collation(%d).String()", id) }, func() {
			if got := Collation(id).String(); got != want {
				z.Fail(t, "Collation(%d).String() = %q, expected %q", id, got, want)
			}
			if got := Collation(id).IsBinary(); got != (id == 63) {
				z.Fail(t, "Collation(%d).IsBinary() = %v", id, got)
			}
		})
	}
	fset := token.NewFileSet()
	ps, err := parser.ParseDir(fset, ".", nil, 0)
	if err != nil {
		t.Fatal(err)
	}
	var fs []*ast.File
	for _, p := range ps {
		for n, f := range p.Files {
			if !strings.HasSuffix(n, "_test.go") {
				fs = append(fs, f)
			}
		}
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	p, err := conf.Check("collation", fset, fs, nil)
	if err != nil {
		t.Fatal(err)
	}
	norm := func(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }
	for _, n := range p.Scope().Names() {
		k, ok := p.Scope().Lookup(n).(*types.Const)
		if !ok || !k.Exported() || k.Type().String() != "collation.Collation" {
			continue
		}
		id, _ := constant.Uint64Val(k.Val())
		if norm(zzNames[id]) != norm(n) {
			z.Fail(t, "the constant collation.%s has id %d, which is %q", n, id, zzNames[id])
		}
	}
}
