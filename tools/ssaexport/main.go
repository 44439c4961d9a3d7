// ssaexport loads the Go module in DIR, builds its SSA form (generics
// instantiated) and writes it as JSON.  It contains no knowledge of the code
// under verification: it is the mechanical front end of the verifier.
//
//	ssaexport -dir /repo -out out.json [-overlay real=replacement ...]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	typesOut = M{}
	fset     *token.FileSet
	modPath  string
)

func qual(p *types.Package) string { return p.Path() }

var aliasRe = regexp.MustCompile(`(^|[^\w./"])(byte|rune)\b`)

// byte and rune are printed as the types they stand for
func tstr(t types.Type) string {
	return aliasRe.ReplaceAllStringFunc(types.TypeString(t, qual), func(m string) string {
		return strings.Replace(strings.Replace(m, "byte", "uint8", 1), "rune", "int32", 1)
	})
}

// ty registers a type and returns its key.
func ty(t types.Type) string {
	if t == nil {
		return ""
	}
	t = types.Unalias(t)
	k := tstr(t)
	if _, ok := typesOut[k]; ok {
		return k
	}
	d := M{}
	typesOut[k] = d
	switch t := t.(type) {
	case *types.Basic:
		d["kind"] = "basic"
		d["name"] = t.Name()
	case *types.Named:
		d["kind"] = "named"
		d["under"] = ty(t.Underlying())
		if t.Obj().Pkg() != nil {
			d["pkg"] = t.Obj().Pkg().Path()
		}
		d["name"] = t.Obj().Name()
	case *types.Pointer:
		d["kind"] = "pointer"
		d["elem"] = ty(t.Elem())
	case *types.Slice:
		d["kind"] = "slice"
		d["elem"] = ty(t.Elem())
	case *types.Array:
		d["kind"] = "array"
		d["elem"] = ty(t.Elem())
		d["len"] = t.Len()
	case *types.Map:
		d["kind"] = "map"
		d["key"] = ty(t.Key())
		d["elem"] = ty(t.Elem())
	case *types.Chan:
		d["kind"] = "chan"
		d["elem"] = ty(t.Elem())
	case *types.Struct:
		d["kind"] = "struct"
		fs := []M{}
		// do not descend into foreign structs: opaque
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			pk := ""
			if f.Pkg() != nil {
				pk = f.Pkg().Path()
			}
			if pk != "" && !strings.HasPrefix(pk, modPath) {
				d["opaque"] = true
				fs = nil
				break
			}
			fs = append(fs, M{"name": f.Name(), "type": ty(f.Type()), "tag": t.Tag(i), "embedded": f.Embedded()})
		}
		d["fields"] = fs
	case *types.Interface:
		d["kind"] = "interface"
		ms := []M{}
		for i := 0; i < t.NumMethods(); i++ {
			m := t.Method(i)
			ms = append(ms, M{"name": m.Name(), "sig": sig(m.Type().(*types.Signature))})
		}
		d["methods"] = ms
	case *types.Signature:
		d["kind"] = "func"
		d["sig"] = sig(t)
	case *types.Tuple:
		d["kind"] = "tuple"
		es := []string{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, ty(t.At(i).Type()))
		}
		d["elems"] = es
	default:
		d["kind"] = "other"
		d["go"] = fmt.Sprintf("%T", t)
	}
	return k
}

func sig(s *types.Signature) M {
	ps := []M{}
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, M{"name": s.Params().At(i).Name(), "type": ty(s.Params().At(i).Type())})
	}
	rs := []M{}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, M{"name": s.Results().At(i).Name(), "type": ty(s.Results().At(i).Type())})
	}
	return M{"params": ps, "results": rs, "variadic": s.Variadic()}
}

func cval(c *ssa.Const) any {
	if c.Value == nil {
		return nil
	}
	v := c.Value
	switch v.Kind() {
	case constant.Bool:
		return constant.BoolVal(v)
	case constant.String:
		// as list of bytes, exact
		s := constant.StringVal(v)
		bs := make([]int, len(s))
		for i := 0; i < len(s); i++ {
			bs[i] = int(s[i])
		}
		return M{"str": bs}
	case constant.Int:
		// the constant may have float type
		return M{"int": v.ExactString()}
	case constant.Float:
		return M{"rat": v.ExactString()}
	}
	return M{"other": v.ExactString()}
}

func val(v ssa.Value) any {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		return M{"k": "const", "t": ty(v.Type()), "v": cval(v)}
	case *ssa.Global:
		return M{"k": "global", "n": v.Pkg.Pkg.Path() + "." + v.Name(), "t": ty(v.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": v.String(), "t": ty(v.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": v.Name(), "t": ""}
	case *ssa.Parameter:
		return M{"k": "param", "n": v.Name(), "t": ty(v.Type())}
	case *ssa.FreeVar:
		return M{"k": "freevar", "n": v.Name(), "t": ty(v.Type())}
	}
	return M{"k": "reg", "n": v.Name(), "t": ty(v.Type())}
}

func call(c *ssa.CallCommon) M {
	d := M{}
	args := []any{}
	for _, a := range c.Args {
		args = append(args, val(a))
	}
	d["args"] = args
	if c.IsInvoke() {
		d["mode"] = "invoke"
		d["recv"] = val(c.Value)
		d["iface"] = ty(c.Value.Type())
		d["method"] = c.Method.Name()
		d["sig"] = sig(c.Method.Type().(*types.Signature))
	} else {
		d["mode"] = "call"
		d["fn"] = val(c.Value)
		if f := c.StaticCallee(); f != nil {
			d["static"] = f.String()
			if f.Origin() != nil {
				d["origin"] = f.Origin().String()
			}
			if f.Synthetic != "" {
				d["synthetic"] = f.Synthetic
			}
		}
		d["sig"] = sig(c.Signature())
	}
	return d
}

func instr(i ssa.Instruction) M {
	d := M{"op": strings.TrimPrefix(fmt.Sprintf("%T", i), "*ssa.")}
	p := fset.Position(i.Pos())
	if p.IsValid() {
		d["pos"] = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
	}
	if v, ok := i.(ssa.Value); ok {
		d["name"] = v.Name()
		d["type"] = ty(v.Type())
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		d["heap"] = i.Heap
		d["comment"] = i.Comment
	case *ssa.BinOp:
		d["tok"] = i.Op.String()
		d["x"], d["y"] = val(i.X), val(i.Y)
	case *ssa.UnOp:
		d["tok"] = i.Op.String()
		d["x"] = val(i.X)
		d["commaok"] = i.CommaOk
	case *ssa.Call:
		d["call"] = call(&i.Call)
	case *ssa.Go:
		d["call"] = call(&i.Call)
	case *ssa.Defer:
		d["call"] = call(&i.Call)
	case *ssa.ChangeInterface:
		d["x"] = val(i.X)
	case *ssa.ChangeType:
		d["x"] = val(i.X)
	case *ssa.Convert:
		d["x"] = val(i.X)
	case *ssa.MultiConvert:
		d["x"] = val(i.X)
	case *ssa.Extract:
		d["x"] = val(i.Tuple)
		d["index"] = i.Index
	case *ssa.Field:
		d["x"] = val(i.X)
		d["field"] = i.Field
	case *ssa.FieldAddr:
		d["x"] = val(i.X)
		d["field"] = i.Field
	case *ssa.If:
		d["cond"] = val(i.Cond)
	case *ssa.Index:
		d["x"], d["index"] = val(i.X), val(i.Index)
	case *ssa.IndexAddr:
		d["x"], d["index"] = val(i.X), val(i.Index)
	case *ssa.Lookup:
		d["x"], d["index"] = val(i.X), val(i.Index)
		d["commaok"] = i.CommaOk
	case *ssa.MakeChan:
		d["size"] = val(i.Size)
	case *ssa.MakeClosure:
		d["fn"] = val(i.Fn)
		bs := []any{}
		for _, b := range i.Bindings {
			bs = append(bs, val(b))
		}
		d["bindings"] = bs
	case *ssa.MakeInterface:
		d["x"] = val(i.X)
	case *ssa.MakeMap:
		if i.Reserve != nil {
			d["reserve"] = val(i.Reserve)
		}
	case *ssa.MakeSlice:
		d["len"], d["cap"] = val(i.Len), val(i.Cap)
	case *ssa.MapUpdate:
		d["map"], d["key"], d["value"] = val(i.Map), val(i.Key), val(i.Value)
	case *ssa.Next:
		d["iter"] = val(i.Iter)
		d["isstring"] = i.IsString
	case *ssa.Panic:
		d["x"] = val(i.X)
	case *ssa.Phi:
		es := []any{}
		for _, e := range i.Edges {
			es = append(es, val(e))
		}
		d["edges"] = es
		d["comment"] = i.Comment
	case *ssa.Range:
		d["x"] = val(i.X)
	case *ssa.Return:
		rs := []any{}
		for _, r := range i.Results {
			rs = append(rs, val(r))
		}
		d["results"] = rs
	case *ssa.Select:
		st := []any{}
		for _, s := range i.States {
			st = append(st, M{"dir": int(s.Dir), "chan": val(s.Chan), "send": val(s.Send)})
		}
		d["states"] = st
		d["blocking"] = i.Blocking
	case *ssa.Send:
		d["chan"], d["x"] = val(i.Chan), val(i.X)
	case *ssa.Slice:
		d["x"], d["low"], d["high"], d["max"] = val(i.X), val(i.Low), val(i.High), val(i.Max)
	case *ssa.SliceToArrayPointer:
		d["x"] = val(i.X)
	case *ssa.Store:
		d["addr"], d["val"] = val(i.Addr), val(i.Val)
	case *ssa.TypeAssert:
		d["x"] = val(i.X)
		d["asserted"] = ty(i.AssertedType)
		d["commaok"] = i.CommaOk
	}
	return d
}

var repoDir string

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	out := flag.String("out", "", "output file")
	inst := flag.String("inst", "", "comma separated PKGDIR=FILE overlay pairs")
	flag.Parse()
	repoDir = *dir
	overlay := map[string][]byte{}
	if *inst != "" {
		for _, kv := range strings.Split(*inst, ",") {
			p := strings.SplitN(kv, "=", 2)
			b, err := os.ReadFile(p[1])
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			overlay[p[0]] = b
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedExportFile | packages.NeedModule | packages.NeedDeps,
		Dir:     *dir,
		Overlay: overlay,
		Tests:   false,
	}
	// Without NeedDeps bodies of dependencies are not loaded; types come from export data.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
		if p.Module != nil {
			modPath = p.Module.Path
		}
	}
	if bad {
		os.Exit(3)
	}
	fset = pkgs[0].Fset
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	_ = spkgs
	inMod := func(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }
	funcs := M{}
	var emit func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	emit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		d := M{"name": f.String(), "synthetic": f.Synthetic}
		pk := f.Package()
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Package()
		}
		if pk != nil {
			d["pkg"] = pk.Pkg.Path()
		}
		if f.Origin() != nil {
			d["origin"] = f.Origin().String()
			ta := []string{}
			for _, t := range f.TypeArgs() {
				ta = append(ta, ty(t))
			}
			d["targs"] = ta
		}
		if f.Parent() != nil {
			d["parent"] = f.Parent().String()
		}
		d["sig"] = sig(f.Signature)
		if f.Signature.Recv() != nil {
			d["recv"] = ty(f.Signature.Recv().Type())
		}
		p := fset.Position(f.Pos())
		if p.IsValid() {
			d["pos"] = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
		}
		ps := []M{}
		for _, q := range f.Params {
			ps = append(ps, M{"name": q.Name(), "type": ty(q.Type())})
		}
		d["params"] = ps
		fv := []M{}
		for _, q := range f.FreeVars {
			fv = append(fv, M{"name": q.Name(), "type": ty(q.Type())})
		}
		d["freevars"] = fv
		bs := []M{}
		for _, b := range f.Blocks {
			is := []M{}
			for _, i := range b.Instrs {
				is = append(is, instr(i))
			}
			pr, su := []int{}, []int{}
			for _, x := range b.Preds {
				pr = append(pr, x.Index)
			}
			for _, x := range b.Succs {
				su = append(su, x.Index)
			}
			idom := -1
			if b.Idom() != nil {
				idom = b.Idom().Index
			}
			bs = append(bs, M{"index": b.Index, "comment": b.Comment, "preds": pr, "succs": su, "idom": idom, "instrs": is})
		}
		d["blocks"] = bs
		if f.Recover != nil {
			d["recover"] = f.Recover.Index
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			d["generic"] = true
			d["blocks"] = []M{}
		}
		funcs[f.String()] = d
		for _, a := range f.AnonFuncs {
			emit(a)
		}
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		path := ""
		if f.Pkg != nil {
			path = f.Pkg.Pkg.Path()
		} else if f.Origin() != nil && f.Origin().Pkg != nil {
			path = f.Origin().Pkg.Pkg.Path()
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			path = f.Object().Pkg().Path()
		}
		if inMod(path) {
			if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
				continue
			}
			emit(f)
		}
	}
	// globals
	globals := M{}
	impls := M{}
	var named []types.Type
	for _, p := range prog.AllPackages() {
		if !inMod(p.Pkg.Path()) {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Global:
				globals[p.Pkg.Path()+"."+m.Name()] = M{"type": ty(m.Type())}
			case *ssa.Type:
				if n, ok := types.Unalias(m.Type()).(*types.Named); ok && n.TypeParams().Len() == 0 {
					named = append(named, n)
				}
			}
		}
	}
	// which concrete module types implement which interface
	for _, it := range named {
		iface, ok := it.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		lst := []M{}
		for _, ct := range named {
			if _, isI := ct.Underlying().(*types.Interface); isI {
				continue
			}
			for _, c := range []types.Type{ct, types.NewPointer(ct)} {
				if types.Implements(c, iface) {
					lst = append(lst, M{"type": ty(c)})
					break
				}
			}
		}
		impls[ty(it)] = lst
	}
	// method tables of concrete types
	mtab := M{}
	for _, ct := range named {
		if _, isI := ct.Underlying().(*types.Interface); isI {
			continue
		}
		for _, c := range []types.Type{ct, types.NewPointer(ct)} {
			ms := prog.MethodSets.MethodSet(c)
			tab := M{}
			for i := 0; i < ms.Len(); i++ {
				fn := prog.MethodValue(ms.At(i))
				if fn != nil {
					tab[ms.At(i).Obj().Name()] = fn.String()
					emit(fn)
				}
			}
			mtab[ty(c)] = tab
		}
	}
	files := []string{}
	for _, p := range pkgs {
		files = append(files, p.GoFiles...)
	}
	sort.Strings(files)
	res := M{"module": modPath, "types": typesOut, "funcs": funcs, "globals": globals, "impls": impls, "methods": mtab, "files": files}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *out == "" {
		os.Stdout.Write(b)
	} else if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
