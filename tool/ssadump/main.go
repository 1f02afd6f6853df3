// ssadump: loads packages of the module under /repo (with ghost contract files
// overlaid) and prints their go/ssa form as JSON, for the deductive engine.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var (
	typeIDs  = map[string]int{}
	typeList []J
)

func tid(t types.Type) int {
	if t == nil {
		return -1
	}
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeList)
	typeIDs[key] = id
	j := J{"str": key}
	typeList = append(typeList, j)
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	switch t := t.(type) {
	case *types.Named:
		j["named"] = key
		j["obj"] = t.Obj().Name()
		if t.Obj().Pkg() != nil {
			j["pkg"] = t.Obj().Pkg().Path()
		}
		fillU(j, t.Underlying())
	default:
		fillU(j, t)
	}
	return id
}

func fillU(j J, t types.Type) {
	switch t := t.(type) {
	case *types.Basic:
		j["k"] = "basic"
		j["basic"] = t.Name()
	case *types.Pointer:
		j["k"] = "ptr"
		j["elem"] = tid(t.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["elem"] = tid(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["elem"] = tid(t.Elem())
		j["len"] = t.Len()
	case *types.Map:
		j["k"] = "map"
		j["key"] = tid(t.Key())
		j["elem"] = tid(t.Elem())
	case *types.Struct:
		j["k"] = "struct"
		fs := []J{}
		for i := 0; i < t.NumFields(); i++ {
			fs = append(fs, J{"name": t.Field(i).Name(), "t": tid(t.Field(i).Type())})
		}
		j["fields"] = fs
	case *types.Interface:
		j["k"] = "iface"
	case *types.Signature:
		j["k"] = "func"
	case *types.Tuple:
		j["k"] = "tuple"
		es := []int{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, tid(t.At(i).Type()))
		}
		j["elems"] = es
	case *types.Chan:
		j["k"] = "chan"
	default:
		j["k"] = "other"
	}
}

func fname(f *ssa.Function) string {
	return f.RelString(nil)
}

func val(v ssa.Value) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		j := J{"c": true, "t": tid(v.Type())}
		if v.Value == nil {
			j["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				j["bool"] = constant.BoolVal(v.Value)
			case constant.String:
				s := constant.StringVal(v.Value)
				b := []int{}
				for i := 0; i < len(s); i++ {
					b = append(b, int(s[i]))
				}
				j["bytes"] = b
			case constant.Int:
				j["int"] = v.Value.ExactString()
			default:
				j["other"] = v.Value.ExactString()
				if i := constant.ToInt(v.Value); i.Kind() == constant.Int {
					j["int"] = i.ExactString()
				}
			}
		}
		return j
	case *ssa.Global:
		return J{"g": v.RelString(nil), "t": tid(v.Type())}
	case *ssa.Function:
		return J{"f": fname(v), "t": tid(v.Type())}
	case *ssa.Builtin:
		return J{"b": v.Name()}
	default:
		return v.Name()
	}
}

var fset *token.FileSet

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func instr(in ssa.Instruction) J {
	j := J{}
	if p := pos(in.Pos()); p != "" {
		j["pos"] = p
	}
	if v, ok := in.(ssa.Value); ok {
		j["r"] = v.Name()
		j["t"] = tid(v.Type())
	}
	call := func(c *ssa.CallCommon) {
		args := []interface{}{}
		for _, a := range c.Args {
			args = append(args, val(a))
		}
		j["args"] = args
		if c.IsInvoke() {
			j["invoke"] = c.Method.Name()
			j["recv"] = val(c.Value)
		} else if f := c.StaticCallee(); f != nil {
			j["callee"] = fname(f)
			if _, ok := c.Value.(*ssa.MakeClosure); ok {
				j["fn"] = val(c.Value)
			}
		} else {
			j["fn"] = val(c.Value)
		}
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		j["op"] = "alloc"
		j["heap"] = in.Heap
		j["comment"] = in.Comment
		j["elem"] = tid(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		j["op"] = "binop"
		j["bop"] = in.Op.String()
		j["x"] = val(in.X)
		j["y"] = val(in.Y)
		j["xt"] = tid(in.X.Type())
		j["yt"] = tid(in.Y.Type())
	case *ssa.UnOp:
		j["op"] = "unop"
		j["uop"] = in.Op.String()
		j["x"] = val(in.X)
		j["xt"] = tid(in.X.Type())
		j["commaok"] = in.CommaOk
	case *ssa.Call:
		j["op"] = "call"
		call(&in.Call)
	case *ssa.Defer:
		j["op"] = "defer"
		call(&in.Call)
	case *ssa.Go:
		j["op"] = "go"
	case *ssa.ChangeInterface:
		j["op"] = "changetype"
		j["x"] = val(in.X)
	case *ssa.ChangeType:
		j["op"] = "changetype"
		j["x"] = val(in.X)
		j["xt"] = tid(in.X.Type())
	case *ssa.Convert:
		j["op"] = "convert"
		j["x"] = val(in.X)
		j["xt"] = tid(in.X.Type())
	case *ssa.MultiConvert:
		j["op"] = "convert"
		j["x"] = val(in.X)
		j["xt"] = tid(in.X.Type())
	case *ssa.Extract:
		j["op"] = "extract"
		j["x"] = val(in.Tuple)
		j["i"] = in.Index
	case *ssa.Field:
		j["op"] = "field"
		j["x"] = val(in.X)
		j["i"] = in.Field
	case *ssa.FieldAddr:
		j["op"] = "fieldaddr"
		j["x"] = val(in.X)
		j["i"] = in.Field
	case *ssa.If:
		j["op"] = "if"
		j["x"] = val(in.Cond)
	case *ssa.Index:
		j["op"] = "index"
		j["x"] = val(in.X)
		j["i"] = val(in.Index)
		j["xt"] = tid(in.X.Type())
		j["it"] = tid(in.Index.Type())
	case *ssa.IndexAddr:
		j["op"] = "indexaddr"
		j["x"] = val(in.X)
		j["i"] = val(in.Index)
		j["xt"] = tid(in.X.Type())
		j["it"] = tid(in.Index.Type())
	case *ssa.Jump:
		j["op"] = "jump"
	case *ssa.Lookup:
		j["op"] = "lookup"
		j["x"] = val(in.X)
		j["i"] = val(in.Index)
		j["xt"] = tid(in.X.Type())
		j["it"] = tid(in.Index.Type())
		j["commaok"] = in.CommaOk
	case *ssa.MakeClosure:
		j["op"] = "makeclosure"
		j["f"] = fname(in.Fn.(*ssa.Function))
		b := []interface{}{}
		for _, x := range in.Bindings {
			b = append(b, val(x))
		}
		j["bindings"] = b
	case *ssa.MakeInterface:
		j["op"] = "makeiface"
		j["x"] = val(in.X)
		j["xt"] = tid(in.X.Type())
	case *ssa.MakeMap:
		j["op"] = "makemap"
	case *ssa.MakeSlice:
		j["op"] = "makeslice"
		j["len"] = val(in.Len)
		j["cap"] = val(in.Cap)
		j["lt"] = tid(in.Len.Type())
		j["ct"] = tid(in.Cap.Type())
	case *ssa.MapUpdate:
		j["op"] = "mapupdate"
		j["m"] = val(in.Map)
		j["i"] = val(in.Key)
		j["x"] = val(in.Value)
	case *ssa.Next:
		j["op"] = "next"
		j["x"] = val(in.Iter)
		j["isstr"] = in.IsString
	case *ssa.Panic:
		j["op"] = "panic"
		j["x"] = val(in.X)
	case *ssa.Phi:
		j["op"] = "phi"
		j["comment"] = in.Comment
		e := []interface{}{}
		for _, x := range in.Edges {
			e = append(e, val(x))
		}
		j["edges"] = e
	case *ssa.Range:
		j["op"] = "range"
		j["x"] = val(in.X)
		j["xt"] = tid(in.X.Type())
	case *ssa.Return:
		j["op"] = "return"
		r := []interface{}{}
		for _, x := range in.Results {
			r = append(r, val(x))
		}
		j["res"] = r
	case *ssa.RunDefers:
		j["op"] = "rundefers"
	case *ssa.Slice:
		j["op"] = "slice"
		j["x"] = val(in.X)
		j["xt"] = tid(in.X.Type())
		j["lo"] = val(in.Low)
		j["hi"] = val(in.High)
		j["max"] = val(in.Max)
		if in.Low != nil {
			j["lot"] = tid(in.Low.Type())
		}
		if in.High != nil {
			j["hit"] = tid(in.High.Type())
		}
	case *ssa.SliceToArrayPointer:
		j["op"] = "slicetoarrayptr"
		j["x"] = val(in.X)
	case *ssa.Store:
		j["op"] = "store"
		j["a"] = val(in.Addr)
		j["x"] = val(in.Val)
		j["xt"] = tid(in.Val.Type())
	case *ssa.TypeAssert:
		j["op"] = "typeassert"
		j["x"] = val(in.X)
		j["at"] = tid(in.AssertedType)
		j["commaok"] = in.CommaOk
	case *ssa.DebugRef:
		return nil
	default:
		j["op"] = "unknown"
		j["str"] = in.String()
	}
	return j
}

func dumpFn(f *ssa.Function) J {
	j := J{"name": fname(f), "pos": pos(f.Pos()), "short": f.Name()}
	ps := []J{}
	for _, p := range f.Params {
		ps = append(ps, J{"n": p.Name(), "t": tid(p.Type())})
	}
	j["params"] = ps
	fv := []J{}
	for _, p := range f.FreeVars {
		fv = append(fv, J{"n": p.Name(), "t": tid(p.Type())})
	}
	j["freevars"] = fv
	rs := []int{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, tid(f.Signature.Results().At(i).Type()))
	}
	j["results"] = rs
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Path()
	}
	bs := []J{}
	for _, b := range f.Blocks {
		bj := J{"i": b.Index, "comment": b.Comment}
		pr := []int{}
		for _, p := range b.Preds {
			pr = append(pr, p.Index)
		}
		su := []int{}
		for _, p := range b.Succs {
			su = append(su, p.Index)
		}
		bj["preds"] = pr
		bj["succs"] = su
		if b.Idom() != nil {
			bj["idom"] = b.Idom().Index
		} else {
			bj["idom"] = -1
		}
		is := []J{}
		for _, in := range b.Instrs {
			if x := instr(in); x != nil {
				is = append(is, x)
			}
		}
		bj["ins"] = is
		bs = append(bs, bj)
	}
	j["blocks"] = bs
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	return j
}

func main() {
	dir := flag.String("dir", "/repo", "module dir")
	overlay := flag.String("overlay", "", "overlay json {Replace:{}}")
	std := flag.String("std", "", "comma separated extra packages loaded from source")
	flag.Parse()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule | packages.NeedExportFile,
		Dir: *dir,
	}
	cfg.Mode &^= packages.NeedDeps
	if *overlay != "" {
		var o struct{ Replace map[string]string }
		b, err := os.ReadFile(*overlay)
		if err == nil {
			err = json.Unmarshal(b, &o)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		cfg.Overlay = map[string][]byte{}
		for k, v := range o.Replace {
			c, err := os.ReadFile(v)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			cfg.Overlay[k] = c
		}
	}
	pats := flag.Args()
	if *std != "" {
		pats = append(pats, strings.Split(*std, ",")...)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	bad := 0
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "ERR", p.PkgPath, e)
			bad++
		}
	}
	if bad > 0 {
		os.Exit(4)
	}
	fset = pkgs[0].Fset
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	fns := []J{}
	all := ssautil.AllFunctions(prog)
	var list []*ssa.Function
	want := map[*ssa.Package]bool{}
	for _, p := range spkgs {
		want[p] = true
	}
	for f := range all {
		if f.Blocks == nil {
			continue
		}
		if f.Pkg != nil && !want[f.Pkg] {
			continue
		}
		list = append(list, f)
	}
	sort.Slice(list, func(i, k int) bool { return fname(list[i]) < fname(list[k]) })
	for _, f := range list {
		fns = append(fns, dumpFn(f))
	}
	globals := []J{}
	for _, p := range spkgs {
		names := []string{}
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := p.Members[n].(*ssa.Global)
			globals = append(globals, J{"name": g.RelString(nil), "t": tid(g.Type().Underlying().(*types.Pointer).Elem()), "pkg": p.Pkg.Path()})
		}
	}
	_ = filepath.Join
	out := J{"funcs": fns, "types": typeList, "globals": globals}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
