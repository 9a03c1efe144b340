// gossa prints the SSA form of a Go package as JSON: gossa PKGPATH FILE... [-- IMPORTPATH=DIR ...]
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type obj = map[string]interface{}

var typeIDs = map[string]int{}
var typeTab []obj

func typeID(t types.Type) int {
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	typeTab = append(typeTab, nil)
	o := obj{"s": key}
	switch u := t.(type) {
	case *types.Basic:
		o["k"] = "basic"
		o["n"] = u.Name()
	case *types.Alias:
		o["k"] = "named"
		o["u"] = typeID(types.Unalias(t))
	case *types.Named:
		o["k"] = "named"
		o["u"] = typeID(u.Underlying())
	case *types.Pointer:
		o["k"] = "ptr"
		o["e"] = typeID(u.Elem())
	case *types.Slice:
		o["k"] = "slice"
		o["e"] = typeID(u.Elem())
	case *types.Array:
		o["k"] = "array"
		o["e"] = typeID(u.Elem())
		o["len"] = u.Len()
	case *types.Map:
		o["k"] = "map"
		o["key"] = typeID(u.Key())
		o["e"] = typeID(u.Elem())
	case *types.Struct:
		o["k"] = "struct"
		fs := []obj{}
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, obj{"n": u.Field(i).Name(), "t": typeID(u.Field(i).Type()), "emb": u.Field(i).Embedded()})
		}
		o["f"] = fs
	case *types.Interface:
		o["k"] = "iface"
	case *types.Tuple:
		o["k"] = "tuple"
		es := []int{}
		for i := 0; i < u.Len(); i++ {
			es = append(es, typeID(u.At(i).Type()))
		}
		o["es"] = es
	case *types.Signature:
		o["k"] = "func"
		o["res"] = typeID(u.Results())
		o["par"] = typeID(u.Params())
	default:
		o["k"] = "other"
	}
	typeTab[id] = o
	return id
}

func val(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		o := obj{"k": "const", "t": typeID(x.Type())}
		if x.Value == nil {
			o["v"] = nil
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				o["v"] = constant.BoolVal(x.Value)
			case constant.String:
				o["v"] = constant.StringVal(x.Value)
			case constant.Int:
				o["v"] = x.Value.ExactString()
				o["int"] = true
			default:
				f, _ := constant.Float64Val(x.Value)
				o["v"] = f
				o["float"] = true
			}
		}
		return o
	case *ssa.Global:
		return obj{"k": "global", "n": x.String(), "t": typeID(x.Type())}
	case *ssa.Function:
		note(x)
		return obj{"k": "func", "n": x.String()}
	case *ssa.Builtin:
		return obj{"k": "builtin", "n": x.Name()}
	}
	return obj{"k": "reg", "n": v.Name()}
}

func vals(vs []ssa.Value) []interface{} {
	out := []interface{}{}
	for _, v := range vs {
		out = append(out, val(v))
	}
	return out
}

func call(c *ssa.CallCommon, o obj) {
	if c.IsInvoke() {
		o["recv"] = val(c.Value)
		o["method"] = c.Method.Name()
	} else {
		o["fn"] = val(c.Value)
	}
	o["args"] = vals(c.Args)
}

func instr(i ssa.Instruction) obj {
	o := obj{"op": strings.TrimPrefix(fmt.Sprintf("%T", i), "*ssa.")}
	if v, ok := i.(ssa.Value); ok {
		o["reg"] = v.Name()
		o["t"] = typeID(v.Type())
	}
	if p := i.Pos(); p.IsValid() {
		q := fset.Position(p)
		o["pos"] = fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		o["e"] = typeID(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		o["o"] = x.Op.String()
		o["x"], o["y"] = val(x.X), val(x.Y)
		o["xt"] = typeID(x.X.Type())
	case *ssa.UnOp:
		o["o"] = x.Op.String()
		o["x"] = val(x.X)
		o["commaok"] = x.CommaOk
	case *ssa.Call:
		call(&x.Call, o)
	case *ssa.Defer:
		call(&x.Call, o)
	case *ssa.ChangeInterface:
		o["x"] = val(x.X)
	case *ssa.ChangeType:
		o["x"] = val(x.X)
	case *ssa.Convert:
		o["x"] = val(x.X)
		o["xt"] = typeID(x.X.Type())
	case *ssa.Extract:
		o["x"], o["i"] = val(x.Tuple), x.Index
	case *ssa.Field:
		o["x"], o["i"] = val(x.X), x.Field
	case *ssa.FieldAddr:
		o["x"], o["i"] = val(x.X), x.Field
	case *ssa.Index:
		o["x"], o["y"] = val(x.X), val(x.Index)
	case *ssa.IndexAddr:
		o["x"], o["y"] = val(x.X), val(x.Index)
	case *ssa.If:
		o["x"] = val(x.Cond)
	case *ssa.Return:
		o["xs"] = vals(x.Results)
	case *ssa.Panic:
		o["x"] = val(x.X)
	case *ssa.Phi:
		o["xs"] = vals(x.Edges)
	case *ssa.Lookup:
		o["x"], o["y"], o["commaok"] = val(x.X), val(x.Index), x.CommaOk
		o["xt"] = typeID(x.X.Type())
	case *ssa.MakeClosure:
		o["x"], o["xs"] = val(x.Fn), vals(x.Bindings)
	case *ssa.MakeInterface:
		o["x"] = val(x.X)
		o["xt"] = typeID(x.X.Type())
	case *ssa.MakeSlice:
		o["x"], o["y"] = val(x.Len), val(x.Cap)
	case *ssa.MapUpdate:
		o["m"], o["x"], o["y"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.Range:
		o["x"] = val(x.X)
		o["xt"] = typeID(x.X.Type())
	case *ssa.Next:
		o["x"] = val(x.Iter)
		o["str"] = x.IsString
	case *ssa.Slice:
		o["x"], o["lo"], o["hi"], o["max"] = val(x.X), val(x.Low), val(x.High), val(x.Max)
		o["xt"] = typeID(x.X.Type())
	case *ssa.Store:
		o["x"], o["y"] = val(x.Addr), val(x.Val)
	case *ssa.TypeAssert:
		o["x"], o["commaok"] = val(x.X), x.CommaOk
		o["at"] = typeID(x.AssertedType)
	}
	return o
}

var fset = token.NewFileSet()
var queue []*ssa.Function
var seen = map[*ssa.Function]bool{}
var own = map[*ssa.Package]bool{}

func note(f *ssa.Function) {
	if !seen[f] {
		seen[f] = true
		queue = append(queue, f)
	}
}

func dump(f *ssa.Function) obj {
	ps, fv, blocks := []obj{}, []obj{}, []obj{}
	for _, p := range f.Params {
		ps = append(ps, obj{"n": p.Name(), "t": typeID(p.Type())})
	}
	for _, p := range f.FreeVars {
		fv = append(fv, obj{"n": p.Name(), "t": typeID(p.Type())})
	}
	if f.Pkg == nil || own[f.Pkg] {
		for _, b := range f.Blocks {
			is, pr, su := []obj{}, []int{}, []int{}
			for _, i := range b.Instrs {
				if _, dbg := i.(*ssa.DebugRef); !dbg {
					is = append(is, instr(i))
				}
			}
			for _, p := range b.Preds {
				pr = append(pr, p.Index)
			}
			for _, s := range b.Succs {
				su = append(su, s.Index)
			}
			blocks = append(blocks, obj{"i": is, "p": pr, "s": su})
		}
	}
	return obj{"params": ps, "free": fv, "blocks": blocks, "res": typeID(f.Signature.Results())}
}

type imp struct {
	std  types.Importer
	dirs map[string]string
	pkgs map[string]*types.Package
	src  map[string][]*ast.File
	info map[string]*types.Info
}

func (m *imp) Import(path string) (*types.Package, error) {
	if p, ok := m.pkgs[path]; ok {
		return p, nil
	}
	d, ok := m.dirs[path]
	if !ok {
		return m.std.Import(path)
	}
	names, _ := filepath.Glob(filepath.Join(d, "*.go"))
	sort.Strings(names)
	var files []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	info := newInfo()
	p, err := (&types.Config{Importer: m}).Check(path, fset, files, info)
	if err != nil {
		return nil, err
	}
	m.pkgs[path], m.src[path], m.info[path] = p, files, info
	return p, nil
}

func newInfo() *types.Info {
	return &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
}

func fail(kind string, err error) {
	json.NewEncoder(os.Stdout).Encode(obj{"error": kind, "text": err.Error()})
	os.Exit(0)
}

func main() {
	m := &imp{std: importer.ForCompiler(fset, "source", nil), dirs: map[string]string{}, pkgs: map[string]*types.Package{}, src: map[string][]*ast.File{}, info: map[string]*types.Info{}}
	var files []*ast.File
	for _, a := range os.Args[2:] {
		if i := strings.Index(a, "="); i >= 0 {
			m.dirs[a[:i]] = a[i+1:]
			continue
		}
		f, err := parser.ParseFile(fset, a, nil, 0)
		if err != nil {
			fail("syntax", err)
		}
		files = append(files, f)
	}
	info := newInfo()
	pkg, err := (&types.Config{Importer: m}).Check(os.Args[1], fset, files, info)
	if err != nil {
		fail("types", err)
	}
	prog := ssa.NewProgram(fset, ssa.SanityCheckFunctions)
	made := map[*types.Package]bool{}
	var create func(ps []*types.Package)
	create = func(ps []*types.Package) {
		for _, p := range ps {
			if made[p] {
				continue
			}
			made[p] = true
			if fs, ok := m.src[p.Path()]; ok {
				own[prog.CreatePackage(p, fs, m.info[p.Path()], true)] = true
			} else {
				prog.CreatePackage(p, nil, nil, true)
			}
			create(p.Imports())
		}
	}
	create(pkg.Imports())
	sp := prog.CreatePackage(pkg, files, info, false)
	own[sp] = true
	prog.Build()
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || own[f.Pkg] {
			note(f)
		}
	}
	for p := range own {
		for _, mem := range p.Members {
			if f, ok := mem.(*ssa.Function); ok {
				note(f)
			}
			if t, ok := mem.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							note(f)
						}
					}
				}
			}
		}
	}
	fns := obj{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		fns[f.String()] = dump(f)
	}
	methods := obj{}
	consts := obj{}
	for p := range own {
		for n, mem := range p.Members {
			if c, ok := mem.(*ssa.NamedConst); ok && p == sp {
				consts[n] = val(c.Value)
			}
			if t, ok := mem.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					mm := obj{}
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							mm[ms.At(i).Obj().Name()] = f.String()
						}
					}
					methods[types.TypeString(tt, nil)] = mm
					typeID(tt)
				}
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(obj{"functions": fns, "types": typeTab, "methods": methods, "consts": consts, "package": pkg.Name()})
}
