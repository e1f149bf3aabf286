// mutate prints the mutants of Go files: one JSON object per line with the file, the byte range, the
// replacement and a description. It only needs the syntax, identifiers are matched by the types go/types finds.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type mutant struct {
	File       string
	Start, End int
	New, What  string
	Func       string
}

func main() {
	dir := os.Args[1] // package directory
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	var names []string
	src := map[string][]byte{}
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, ".pb.go") {
			continue
		}
		b, _ := os.ReadFile(f)
		src[f] = b
		a, err := parser.ParseFile(fset, f, b, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, a)
		names = append(names, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	pkg, _ := conf.Check(dir, fset, files, info)
	out := json.NewEncoder(os.Stdout)
	for i, f := range files {
		name := names[i]
		b := src[name]
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
		cur := ""
		emit := func(n ast.Node, nw, what string) {
			o := text(n)
			if o == nw {
				return
			}
			out.Encode(mutant{name, off(n.Pos()), off(n.End()), nw, fmt.Sprintf("%s:%d %s: %s -> %s", filepath.Base(name), fset.Position(n.Pos()).Line, what, clip(o), clip(nw)), cur})
		}
		emitAt := func(p token.Pos, old, nw, what string) {
			s := off(p)
			out.Encode(mutant{name, s, s + len(old), nw, fmt.Sprintf("%s:%d %s: %s -> %s", filepath.Base(name), fset.Position(p).Line, what, old, nw), cur})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if gd, isG := d.(*ast.GenDecl); isG && gd.Tok == token.CONST || !ok && isG && gd.Tok == token.VAR {
				cur = "const"
				ast.Inspect(gd, func(n ast.Node) bool {
					if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.INT {
						emit(l, "("+l.Value+"+1)", "const")
					}
					return true
				})
				continue
			}
			if !ok || fd.Body == nil {
				continue
			}
			cur = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BasicLit:
					switch n.Kind {
					case token.INT, token.CHAR:
						emit(n, "("+n.Value+"+1)", "lit")
						if n.Value != "0" {
							emit(n, "("+n.Value+"-1)", "lit")
						}
					case token.STRING:
						if len(n.Value) > 2 {
							emit(n, n.Value[:1]+"z"+n.Value[1:], "string")
						}
					}
				case *ast.BinaryExpr:
					sw := map[string][]string{"<": {"<=", ">"}, "<=": {"<", ">="}, ">": {">=", "<"}, ">=": {">", "<="}, "==": {"!="}, "!=": {"=="}, "+": {"-"}, "-": {"+"}, "*": {"+"}, "/": {"*"}, "%": {"/"}, "<<": {">>"}, ">>": {"<<"}, "&": {"|"}, "|": {"&"}, "^": {"|"}, "&&": {"||"}, "||": {"&&"}}
					for _, s := range sw[n.Op.String()] {
						emitAt(n.OpPos, n.Op.String(), s, "op")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB || n.Op == token.XOR {
						emit(n, text(n.X), "unary")
					}
				case *ast.AssignStmt:
					if n.Tok == token.ASSIGN || n.Tok != token.DEFINE {
						if n.Tok == token.ASSIGN {
							var l []string
							for range n.Lhs {
								l = append(l, "_")
							}
							if len(n.Lhs) == len(n.Rhs) || true {
								emit(n, strings.Join(l, ", ")+" = "+rhs(n.Rhs, text), "drop assign")
							}
						} else {
							emit(n, "_ = "+text(n.Rhs[0]), "drop assign")
						}
					}
					op := map[string]string{"+=": "-=", "-=": "+=", "|=": "&=", "<<=": ">>=", ">>=": "<<=", "*=": "+=", "^=": "|="}
					if s := op[n.Tok.String()]; s != "" {
						emitAt(n.TokPos, n.Tok.String(), s, "op")
					}
				case *ast.ExprStmt:
					emit(n, "{}", "drop stmt")
				case *ast.DeferStmt:
					emit(n, "{}", "drop defer")
				case *ast.IncDecStmt:
					emit(n, "{}", "drop inc")
				case *ast.IfStmt:
					emit(n.Cond, "!("+text(n.Cond)+")", "negate")
				case *ast.CaseClause:
					if len(n.Body) > 0 && len(n.List) > 0 {
						out.Encode(mutant{name, off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End()), "{}", fmt.Sprintf("%s:%d drop case body %s", filepath.Base(name), fset.Position(n.Pos()).Line, clip(text(n.List[0]))), cur})
					}
				case *ast.CallExpr:
					tv := info.Types[n]
					if t, ok := tv.Type.(*types.Basic); ok && t.Info()&types.IsInteger != 0 && len(n.Args) == 1 {
						if id, ok := n.Fun.(*ast.Ident); ok {
							switch id.Name {
							case "len":
								emit(n, "int(uint16("+text(n)+"))", "narrow")
							case "uint64", "uint", "int", "int64", "uint32":
								emit(n, id.Name+"(uint16("+text(n.Args[0])+"))", "narrow")
							}
						}
					}
					for i := 0; i+1 < len(n.Args); i++ {
						a, c := n.Args[i], n.Args[i+1]
						ta, tc := info.Types[a].Type, info.Types[c].Type
						if ta != nil && tc != nil && types.Identical(types.Default(ta), types.Default(tc)) {
							out.Encode(mutant{name, off(a.Pos()), off(c.End()), text(c) + ", " + text(a), fmt.Sprintf("%s:%d swap args: %s", filepath.Base(name), fset.Position(n.Pos()).Line, clip(text(n))), cur})
						}
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						emit(n.Low, "("+text(n.Low)+")+1", "slice low")
					}
					if n.High != nil {
						emit(n.High, "("+text(n.High)+")-1", "slice high")
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if t := info.Types[r].Type; t != nil && t.String() == "error" && text(r) != "nil" {
							emit(r, "nil", "drop error")
						}
					}
				case *ast.Ident:
					o := info.Uses[n]
					if o == nil || o.Pkg() != pkg {
						return true
					}
					var cands []string
					switch o := o.(type) {
					case *types.Const:
						for _, nm := range pkg.Scope().Names() {
							if k, ok := pkg.Scope().Lookup(nm).(*types.Const); ok && k != o && types.Identical(k.Type(), o.Type()) && pref(k.Name(), o.Name()) && len(pkg.Scope().Names()) < 400 {
								cands = append(cands, nm)
							}
						}
						if len(cands) > 2 {
							h := int(n.Pos()) % len(cands)
							cands = []string{cands[h], cands[(h+1)%len(cands)]}
						}
					case *types.Var:
						if o.IsField() {
							break
						}
						in := pkg.Scope().Innermost(n.Pos())
						for s := in; s != nil && s != pkg.Scope(); s = s.Parent() {
							for _, nm := range s.Names() {
								v, ok := s.Lookup(nm).(*types.Var)
								if ok && v != o && v.Pos() < n.Pos() && types.Identical(v.Type(), o.Type()) && v.Name() != "_" {
									cands = append(cands, nm)
								}
							}
						}
						if len(cands) > 2 {
							cands = cands[:2]
						}
					case *types.Func:
						if o.Type().(*types.Signature).Recv() != nil {
							break
						}
						for _, nm := range pkg.Scope().Names() {
							if k, ok := pkg.Scope().Lookup(nm).(*types.Func); ok && k != o && types.Identical(k.Type(), o.Type()) {
								cands = append(cands, nm)
							}
						}
						sort.Strings(cands)
						if len(cands) > 2 {
							h := int(n.Pos()) % len(cands)
							cands = []string{cands[h], cands[(h+1)%len(cands)]}
						}
					}
					for _, c := range cands {
						emit(n, c, "ident")
					}
				case *ast.SelectorExpr:
					if id, ok := n.X.(*ast.Ident); ok {
						if t := info.Types[n.X].Type; t != nil {
							if p, ok := t.(*types.Pointer); ok {
								t = p.Elem()
							}
							if st, ok := t.Underlying().(*types.Struct); ok {
								me := info.Types[n].Type
								for i := 0; i < st.NumFields(); i++ {
									if fl := st.Field(i); fl.Name() != n.Sel.Name && me != nil && types.Identical(fl.Type(), me) {
										emit(n, id.Name+"."+fl.Name(), "field")
									}
								}
							}
						}
					}
				}
				return true
			})
		}
	}
}

func pref(a, b string) bool { return len(a) > 2 && len(b) > 2 && a[:2] == b[:2] }

func rhs(es []ast.Expr, text func(ast.Node) string) string {
	var s []string
	for _, e := range es {
		s = append(s, text(e))
	}
	return strings.Join(s, ", ")
}

func clip(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return s
}
