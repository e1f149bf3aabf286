package main

import (
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"
var verifDir = "/verif"

// loadEnv prepares a scratch module file so that /repo's own stay untouched.
func loadEnv(scratch string) ([]string, error) {
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return nil, err
	}
	text := string(mod)
	sum, _ := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	extra, _ := os.ReadFile(filepath.Join(verifDir, "root.extra.sum"))
	lines := map[string]bool{}
	for _, l := range strings.Split(string(sum)+"\n"+string(extra), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			lines[l] = true
		}
	}
	if err := os.WriteFile(filepath.Join(scratch, "root.mod"), []byte(text), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(scratch, "root.sum"), []byte(strings.Join(sortedKeys(lines), "\n")+"\n"), 0o644); err != nil {
		return nil, err
	}
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOSUMDB=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off", "GOFLAGS=-mod=mod -modfile="+filepath.Join(scratch, "root.mod"))
	cmd := exec.Command("go", "mod", "edit", "-require=github.com/golang/protobuf@v1.5.4", filepath.Join(scratch, "root.mod"))
	cmd.Env = append([]string{}, env[:len(env)-1]...)
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("go mod edit: %v %s", err, out)
	}
	return env, nil
}

func load(scratch string) (*Engine, error) {
	env, err := loadEnv(scratch)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repoDir, Env: env}
	pkgs, err := packages.Load(cfg, "./...", modPrefix+"/protobuf/mysqlx", modPrefix+"/protobuf/mysqlx_session", modPrefix+"/protobuf/mysqlx_resultset", "encoding/binary", "encoding/hex", "strconv", "math/bits", "time", "math")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, contracts: map[string]*Contract{}, broken: map[string]bool{},
		oblBudget: 20 * time.Second, typeIDs: map[string]int{}, fnBudget: 240 * time.Second}
	for _, p := range sp {
		if p != nil {
			p.Build()
			e.pkgs[p.Pkg.Path()] = p
		}
	}
	e.allFns = ssautil.AllFunctions(prog)
	// dynamic types that the specifications distinguish
	for _, b := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64,
		types.Float32, types.Float64, types.String, types.Uintptr, types.Complex64, types.Complex128} {
		e.typeID(types.Typ[b])
	}
	e.typeID(types.NewSlice(types.Typ[types.Uint8]))
	e.aliasTypes()
	named := func(path, name string) {
		if p := e.findPkg(path); p != nil {
			for o, a := range typeAlias {
				if a == shortPath(path+"."+name) {
					e.typeID(o.Type())
					return
				}
			}
			if o := p.Scope().Lookup(name); o != nil {
				e.typeID(o.Type())
			}
		}
	}
	named("time", "Time")
	named("time", "Duration")
	named(modPrefix+"/xproto", "AppendExprFunc")
	for _, n := range []string{"String", "xml", "xmlString", "json", "jsonString", "geometry"} {
		named(modPrefix, n)
	}
	e.nBase = len(e.typeByID)
	e.recheck = os.Getenv("VERIF_TIER") == "thorough" || os.Getenv("GOVC_RECHECK") != ""
	return e, nil
}

func (e *Engine) findPkg(path string) *types.Package {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == path {
			return p.Pkg
		}
	}
	return nil
}

func (e *Engine) namedType(path, name string) types.Type {
	if p := e.findPkg(path); p != nil {
		if o := p.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	return nil
}

// findFn resolves a contract key to a function of the current source.
func (e *Engine) findFn(key string) *ssa.Function {
	if e.fnByKey == nil {
		e.fnByKey = map[string]*ssa.Function{}
		for fn := range e.allFns {
			if fn.Blocks != nil && fn.Synthetic == "" {
				e.fnByKey[fnKey(fn)] = fn
			}
		}
		// methods that nothing calls are found through their types
		for _, p := range e.pkgs {
			for _, m := range p.Members {
				if t, ok := m.(*ssa.Type); ok {
					for _, mt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
						ms := types.NewMethodSet(mt)
						for i := 0; i < ms.Len(); i++ {
							if f := e.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" && f.Blocks != nil {
								e.fnByKey[fnKey(f)] = f
							}
						}
					}
				}
				if f, ok := m.(*ssa.Function); ok && f.Blocks != nil {
					e.fnByKey[fnKey(f)] = f
				}
			}
		}
	}
	return e.fnByKey[key]
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	flag.Parse()
	repoDir, verifDir = *repo, *verif
	if flag.NArg() == 0 {
		fmt.Fprintln(os.Stderr, "usage: govc check PROPERTY | fn KEY... | list | all")
		os.Exit(2)
	}
	defer killProcs()
	scratch, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := run(scratch)
	killProcs()
	os.RemoveAll(scratch)
	os.Exit(code)
}

func run(scratch string) int {
	switch flag.Arg(0) {
	case "fn", "all", "list":
		e, err := load(scratch)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		e.prop = os.Getenv("GOVC_PROP")
		if flag.Arg(0) == "all" && flag.NArg() > 1 {
			e.prop = flag.Arg(1)
		}
		registerAll(e)
		if flag.Arg(0) == "list" {
			for _, k := range sortedKeys(e.contracts) {
				fmt.Println(k, e.contracts[k].Props)
			}
			return 0
		}
		var ks []string
		if flag.Arg(0) == "all" {
			for k, c := range e.contracts {
				if !c.Trusted && (flag.NArg() < 2 || hasProp(c, flag.Arg(1))) {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
		} else {
			ks = flag.Args()[1:]
		}
		bad := 0
		for _, r := range e.verifyMany(ks) {
			fmt.Println(summary(r))
			if !r.ok() {
				bad = 1
			}
		}
		fmt.Printf("queries %d, feasibility %d, solver %.1fs\n", statQueries, statFeas, float64(statSolverNs)/1e9)
		fmt.Println("decisions confirmed", statConfirmed, "unconfirmed", statUnconfirmed)
		return bad
	case "replay":
		return replayProperty(scratch, flag.Arg(1))
	case "check":
		return checkProperty(scratch, flag.Arg(1))
	}
	return 2
}

func hasProp(c *Contract, p string) bool {
	for _, q := range c.Props {
		if q == p {
			return true
		}
	}
	return false
}

func summary(r *FnReport) string {
	s := fmt.Sprintf("%-50s obls=%d paths=%d %.1fs max=%.2fs", r.Key, r.Obls, r.Paths, r.Secs, r.MaxSecs)
	if r.ok() {
		return s + " OK"
	}
	if r.Unsupported != "" {
		s += " UNSUPPORTED: " + r.Unsupported
	}
	if r.Vacuous != "" {
		s += " VACUOUS: " + r.Vacuous
	}
	for _, o := range r.Failed {
		s += fmt.Sprintf("\n   FAILED %s %s (%s, %s) %s", o.Name, o.Path, o.Res, o.Solver, clip(o.Model, 600))
	}
	return s
}

func (e *Engine) verifyMany(keys []string) []*FnReport {
	out := make([]*FnReport, len(keys))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, k := range keys {
		con := e.contracts[k]
		if con == nil {
			out[i] = &FnReport{Key: k, Unsupported: "no contract"}
			continue
		}
		fn := e.findFn(k)
		if fn == nil {
			out[i] = &FnReport{Key: k, Unsupported: "function not found in the source"}
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			out[i] = e.verifyFunc(fn, con)
		}(i)
	}
	wg.Wait()
	return out
}
