// Command instr writes an overlay for `go build` that adds yield points,
// cooperative synchronisation and accessors to the non-test sources of the
// repository. It never writes inside the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo     = flag.String("repo", "/repo", "repository root")
	out      = flag.String("out", "", "output directory")
	rtdir    = flag.String("rt", "", "directory of the runtime templates")
	portable = flag.Bool("portable", false, "select the portable code instead of the assembly")
	coarse   = flag.Bool("coarse", false, "no yield points")
)

const rtPath = "github.com/henrydcase/nobs/verifrt"

type edit struct {
	off  int
	del  int
	text string
	seq  int
}

var cpuName string

var (
	names     []string
	notes     []string
	overlay   = map[string]string{}
	nYields   int
	usesChans bool
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func evalTags(src []byte, name string, amd64, noasm bool) (bool, []int) {
	ok := func(tag string) bool {
		switch tag {
		case "amd64":
			return amd64
		case "noasm":
			return noasm
		case "linux", "unix", "gc":
			return true
		}
		if strings.HasPrefix(tag, "go1.") {
			return true
		}
		return false
	}
	res := true
	var lines []int
	var plus []constraint.Expr
	var goB constraint.Expr
	for i, l := range strings.Split(string(src), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if constraint.IsGoBuild(t) {
			if e, err := constraint.Parse(t); err == nil {
				goB = e
				lines = append(lines, i)
			}
		} else if constraint.IsPlusBuild(t) {
			if e, err := constraint.Parse(t); err == nil {
				plus = append(plus, e)
				lines = append(lines, i)
			}
		}
	}
	if goB != nil {
		res = goB.Eval(ok)
	} else {
		for _, e := range plus {
			res = res && e.Eval(ok)
		}
	}
	base := strings.TrimSuffix(strings.TrimSuffix(name, ".go"), ".s")
	if strings.HasSuffix(base, "_amd64") && !amd64 {
		res = false
	}
	for _, a := range []string{"arm64", "386", "ppc64le", "arm", "windows", "darwin"} {
		if strings.HasSuffix(base, "_"+a) {
			res = false
		}
	}
	return res, lines
}

type pkgInfo struct {
	dir     string
	name    string
	files   []string
	vars    map[string]bool
	bodyles map[string]string // bodyless func -> file
}

func isLight(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.IncDecStmt:
	case *ast.AssignStmt:
		light := true
		for _, e := range append(append([]ast.Expr{}, x.Rhs...), x.Lhs...) {
			ast.Inspect(e, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					switch f := c.Fun.(type) {
					case *ast.Ident:
						switch f.Name {
						case "len", "cap", "byte", "int", "uint", "uint8", "uint16", "uint32", "uint64", "int8", "int32", "int64", "ctPick64":
						default:
							light = false
						}
					case *ast.SelectorExpr:
						if id, ok := f.X.(*ast.Ident); !ok || id.Name != "bits" {
							light = false
						}
					default:
						light = false
					}
				}
				if _, ok := n.(*ast.FuncLit); ok {
					light = false
				}
				return light
			})
		}
		return light
	case *ast.DeclStmt:
	default:
		return false
	}
	return true
}

type inst struct {
	src   []byte
	fset  *token.FileSet
	edits []edit
	used  bool
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }
func (in *inst) add(off, del int, text string) {
	in.edits = append(in.edits, edit{off, del, text, len(in.edits)})
}

func (in *inst) stmts(list []ast.Stmt) {
	run := 0
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return
		}
		if isLight(s) {
			run++
			if run%4 != 1 {
				continue
			}
		} else {
			run = 0
		}
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		nYields++
		in.add(in.off(s.Pos()), 0, fmt.Sprintf("verifrt.Y(%d);", nYields))
		in.used = true
	}
}

func (in *inst) body(b *ast.BlockStmt) {
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			in.stmts(x.List)
		case *ast.CaseClause:
			in.stmts(x.Body)
		case *ast.CommClause:
			in.stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				nYields++
				in.add(in.off(x.Body.Lbrace)+1, 0, fmt.Sprintf("verifrt.Y(%d);", nYields))
				in.used = true
			}
		case *ast.CallExpr:
			// comparisons of the standard library take longer the more bytes agree
			if f, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 2 {
				if id, ok := f.X.(*ast.Ident); ok && id.Name == "bytes" && id.Obj == nil && (f.Sel.Name == "Equal" || f.Sel.Name == "Compare") {
					in.add(in.off(f.Pos()), 0, "verifrt."+f.Sel.Name+"(")
					in.add(in.off(x.Lparen), 1, ",")
					in.used = true
				}
			}
		case *ast.BinaryExpr:
			if (x.Op == token.EQL || x.Op == token.NEQ) && toString(x.X) && toString(x.Y) {
				not := ""
				if x.Op == token.NEQ {
					not = "!"
				}
				in.add(in.off(x.Pos()), 0, not+"verifrt.Same(")
				in.add(in.off(x.OpPos), 2, ",")
				in.add(in.off(x.End()), 0, ")")
				in.used = true
			}
		case *ast.GoStmt:
			c := x.Call
			in.add(in.off(x.Go), in.off(c.Pos())-in.off(x.Go), "verifrt.Go(")
			if len(c.Args) == 0 {
				in.add(in.off(c.Lparen), 1, "")
			} else {
				in.add(in.off(c.Lparen), 1, ",")
			}
			in.used = true
		}
		return true
	})
}

// toString recognises string(x).
func toString(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	return ok && id.Name == "string" && id.Obj == nil
}

func fnName(pkg string, d *ast.FuncDecl) string {
	if d.Recv != nil && len(d.Recv.List) > 0 {
		t := d.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			return pkg + "." + id.Name + "." + d.Name.Name
		}
	}
	return pkg + "." + d.Name.Name
}

func nosplit(d *ast.FuncDecl) bool {
	if d.Doc == nil {
		return false
	}
	for _, c := range d.Doc.List {
		t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
		if strings.HasPrefix(t, "go:nosplit") || strings.HasPrefix(t, "go:linkname") {
			return true
		}
	}
	return false
}

// countNodes is a rough size of a function, to keep trivial leaf functions
// (accessors) free of overhead.
func trivial(d *ast.FuncDecl) bool {
	if len(d.Body.List) > 1 {
		return false
	}
	if len(d.Body.List) == 0 {
		return true
	}
	calls := false
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
			calls = true
		}
		return !calls
	})
	return !calls
}

func main() {
	flag.Parse()
	if *out == "" || *rtdir == "" {
		die("-out and -rt are needed")
	}
	os.RemoveAll(*out)
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	pkgs := map[string]*pkgInfo{}
	type fileT struct {
		path, rel string
		src       []byte
		ast       *ast.File
		fset      *token.FileSet
	}
	var files []*fileT
	var asmFiles []string
	err := filepath.Walk(*repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if path != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		ext := filepath.Ext(path)
		if ext != ".go" && ext != ".s" || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, path)
		dir := filepath.Dir(rel)
		inNative, lines := evalTags(src, filepath.Base(path), true, false)
		selected := inNative
		sel := dir
		if *portable && sel != "utils" && sel != "drbg/internal/aes" {
			inPort, _ := evalTags(src, filepath.Base(path), false, true)
			selected = inPort
			if inNative && !inPort {
				overlay[path] = ""
				return nil
			}
			if !inNative && inPort {
				if ext == ".s" {
					return nil
				}
				ls := strings.Split(string(src), "\n")
				for _, l := range lines {
					ls[l] = "//"
				}
				src = []byte(strings.Join(ls, "\n"))
			}
		}
		if !selected {
			return nil
		}
		if ext == ".s" {
			if dir != "utils" {
				asmFiles = append(asmFiles, path)
			}
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die("parse %s: %v", path, err)
		}
		if f.Name.Name == "main" {
			return nil
		}
		pi := pkgs[dir]
		if pi == nil {
			pi = &pkgInfo{dir: dir, name: f.Name.Name, vars: map[string]bool{}, bodyles: map[string]string{}}
			pkgs[dir] = pi
		}
		pi.files = append(pi.files, path)
		ast.Inspect(f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.ChanType, *ast.SelectStmt, *ast.SendStmt:
				usesChans = true
			}
			return true
		})
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok == token.VAR {
					for _, s := range x.Specs {
						vs := s.(*ast.ValueSpec)
						for _, id := range vs.Names {
							pi.vars[id.Name] = true
						}
					}
				}
			case *ast.FuncDecl:
				if x.Body == nil {
					pi.bodyles[x.Name.Name] = path
				}
			}
		}
		files = append(files, &fileT{path, rel, src, f, fset})
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	if usesChans {
		notes = append(notes, "library uses channels: yield points off")
		*coarse = true
	}
	sort.Slice(files, func(i, j int) bool { return files[i].rel < files[j].rel })
	simCPUID := ""
	if u := pkgs["utils"]; u != nil && len(u.bodyles) == 1 && !*portable {
		// the one assembly function of the package, if it looks like CPUID
		for n, f := range u.bodyles {
			cpuName, simCPUID = n, f
		}
	}
	feats := map[string]*features{}
	for _, f := range files {
		if d := filepath.Dir(f.rel); d != "utils" {
			if feats[d] == nil {
				feats[d] = newFeatures()
			}
			feats[d].files = append(feats[d].files, f.ast)
		}
	}
	for _, ft := range feats {
		ft.solve()
	}
	for _, f := range files {
		in := &inst{src: f.src, fset: f.fset}
		dir := filepath.Dir(f.rel)
		short := dir
		cpuidHere := simCPUID == f.path
		isUtils := dir == "utils"
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			if fd.Body == nil {
				if cpuidHere && fd.Name.Name == cpuName && sigOK(fd) {
					// the real instruction stays reachable under another name
					in.add(in.off(fd.Name.Pos()), len(cpuName), "cpuidReal")
				}
				continue
			}
			if isUtils {
				continue
			}
			if ft := feats[dir]; ft.inits[fd] != "" {
				in.add(in.off(fd.Name.Pos()), len("init"), ft.inits[fd])
				continue
			}
			if nosplit(fd) || trivial(fd) || *coarse {
				continue
			}
			id := len(names)
			names = append(names, fnName(short, fd))
			in.add(in.off(fd.Body.Lbrace)+1, 0, fmt.Sprintf("verifrt.E(%d);", id))
			in.used = true
			in.body(fd.Body)
		}
		if !*coarse && !isUtils {
			// function literals at package level
			for _, d := range f.ast.Decls {
				if g, ok := d.(*ast.GenDecl); ok {
					ast.Inspect(g, func(n ast.Node) bool {
						if fl, ok := n.(*ast.FuncLit); ok {
							in.body(fl.Body)
							return false
						}
						return true
					})
				}
			}
			for _, im := range f.ast.Imports {
				if im.Path.Value == `"sync"` {
					t := strconv.Quote(rtPath + "/vsync")
					if im.Name == nil {
						t = "sync " + t
					}
					in.add(in.off(im.Path.Pos()), len(im.Path.Value), t)
				}
			}
		}
		if ft := feats[dir]; ft != nil {
			if c := ft.redetect(f.ast, in); c != "" {
				in.add(len(f.src), 0, c)
			}
		}
		if in.used {
			in.add(in.off(f.ast.Name.End()), 0, "; import verifrt "+strconv.Quote(rtPath))
		}
		if len(in.edits) == 0 && string(f.src) == string(mustRead(f.path)) {
			continue
		}
		writeOverlay(f.path, in.apply())
	}
	// CPU features: initialisation that depends on them can be repeated, and the
	// assembly tells which instructions it has executed
	var dirs []string
	for dir := range feats {
		dirs = append(dirs, dir)
	}
	sort.Strings(dirs)
	for _, dir := range dirs {
		if c := feats[dir].code(pkgs[dir].name, dir); c != "" {
			writeOverlay(filepath.Join(*repo, dir, "zz_verif_cpu.go"), []byte(c))
		}
	}
	markAsm(asmFiles, pkgs)
	// package-level variables, so that every run starts from the same state
	for dir, pi := range pkgs {
		if dir == "utils" {
			continue
		}
		var vs []string
		for v := range pi.vars {
			switch v {
			case "_":
			default:
				if !feats[dir].vars[v] {
					vs = append(vs, v)
				}
			}
		}
		if len(vs) == 0 {
			continue
		}
		sort.Strings(vs)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport verifrt %q\n\nfunc init() {\n", pi.name, rtPath)
		for _, v := range vs {
			fmt.Fprintf(&b, "\tverifrt.RegisterGlobal(%q, &%s)\n", dir+"."+v, v)
		}
		fmt.Fprintf(&b, "}\n")
		writeOverlay(filepath.Join(*repo, dir, "zz_verif_globals.go"), []byte(b.String()))
	}
	mode := "real"
	if simCPUID != "" {
		if ok := detectOverlay(pkgs["utils"]); ok {
			mode = "simulated"
		}
	}
	// runtime
	rt := mustRead(filepath.Join(*rtdir, "rt.go.txt"))
	rt = append(rt, []byte(fmt.Sprintf("\nfunc init() { DetectMode = %q }\n", mode))...)
	writeOverlay(filepath.Join(*repo, "verifrt", "rt.go"), rt)
	var nb strings.Builder
	fmt.Fprintf(&nb, "package verifrt\n\nconst NFuncs = %d\n\nvar Names = []string{\n", len(names))
	for _, n := range names {
		fmt.Fprintf(&nb, "\t%q,\n", n)
	}
	fmt.Fprintf(&nb, "}\n\nconst NYields = %d\n\nvar Portable = %v\nvar Coarse = %v\n", nYields, *portable, *coarse)
	writeOverlay(filepath.Join(*repo, "verifrt", "names.go"), []byte(nb.String()))
	writeOverlay(filepath.Join(*repo, "verifrt", "vsync", "vsync.go"), mustRead(filepath.Join(*rtdir, "vsync", "vsync.go.txt")))

	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instr: %d files, %d functions, %d yield points, cpuid %s%s\n", len(overlay), len(names), nYields, mode, strings.Join(notes, "; "))
}

func sigOK(fd *ast.FuncDecl) bool {
	n := 0
	for _, f := range fd.Type.Params.List {
		n += len(f.Names)
		if id, ok := f.Type.(*ast.Ident); !ok || id.Name != "uint32" {
			return false
		}
	}
	if n != 2 || fd.Type.Results == nil {
		return false
	}
	m := 0
	for _, f := range fd.Type.Results.List {
		k := len(f.Names)
		if k == 0 {
			k = 1
		}
		m += k
		if id, ok := f.Type.(*ast.Ident); !ok || id.Name != "uint32" {
			return false
		}
	}
	return m == 4
}

// detectOverlay turns utils' init functions into a re-runnable detection that
// asks the simulated CPUID. The assembly symbol is renamed to match.
func detectOverlay(pi *pkgInfo) bool {
	file := pi.bodyles[cpuName]
	ok := false
	ninit := 0
	var calls, vars []string
	for _, path := range pi.files {
		src := mustRead(path)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die("parse: %v", err)
		}
		in := &inst{src: src, fset: fset}
		for _, d := range f.Decls {
			if g, isg := d.(*ast.GenDecl); isg && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					vs := sp.(*ast.ValueSpec)
					var l []string
					for _, id := range vs.Names {
						l = append(l, id.Name)
					}
					text := func(n ast.Node) string { return string(src[in.off(n.Pos()):in.off(n.End())]) }
					switch {
					case len(vs.Values) > 0:
						var r []string
						for _, v := range vs.Values {
							r = append(r, text(v))
						}
						// needs no name of another package, and the order of
						// initialisation is not a question
						if !strings.Contains(strings.Join(r, ","), ".") && !usesAny(vs.Values, pi.vars) {
							vars = append(vars, strings.Join(l, ", ")+" = "+strings.Join(r, ", "))
							ninit++
						}
					case vs.Type != nil && !strings.Contains(text(vs.Type), "."):
						for _, n := range l {
							if n != "_" {
								vars = append(vars, n+" = *new("+text(vs.Type)+")")
							}
						}
					}
				}
			}
			fd, isf := d.(*ast.FuncDecl)
			if !isf {
				continue
			}
			if path == file && fd.Body == nil && fd.Name.Name == cpuName && sigOK(fd) {
				in.add(in.off(fd.Name.Pos()), len(cpuName), "cpuidReal")
				ok = true
			}
			if fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
				n := fmt.Sprintf("verifInit%d", ninit)
				ninit++
				in.add(in.off(fd.Name.Pos()), len("init"), n)
				calls = append(calls, n+"()")
			}
		}
		if len(in.edits) > 0 {
			writeOverlay(path, in.apply())
		}
	}
	if !ok || ninit == 0 {
		// put the sources back
		for _, path := range pi.files {
			delete(overlay, path)
		}
		return false
	}
	// assembly: rename the symbol
	dir := filepath.Dir(file)
	ents, _ := os.ReadDir(dir)
	renamed := false
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".s") {
			p := filepath.Join(dir, e.Name())
			s := string(mustRead(p))
			if strings.Contains(s, "·"+cpuName+"(SB)") {
				writeOverlay(p, []byte(strings.ReplaceAll(s, "·"+cpuName+"(SB)", "·cpuidReal(SB)")))
				renamed = true
			}
		}
	}
	if !renamed {
		for _, path := range pi.files {
			delete(overlay, path)
		}
		return false
	}
	code := "package " + pi.name + "\n\nimport verifrt " + strconv.Quote(rtPath) + `

func ` + cpuName + `(eaxArg, ecxArg uint32) (eax, ebx, ecx, edx uint32) {
	if verifrt.CPUID != nil {
		return verifrt.CPUID(eaxArg, ecxArg)
	}
	return cpuidReal(eaxArg, ecxArg)
}

func verifDetect() { ` + strings.Join(append(vars, calls...), "; ") + ` }

func init() {
	verifDetect()
	verifrt.Detect = verifDetect
}
`
	writeOverlay(filepath.Join(dir, "zz_verif_cpuid.go"), []byte(code))
	return true
}

func usesAny(l []ast.Expr, names map[string]bool) bool {
	r := false
	for _, e := range l {
		ast.Inspect(e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && names[id.Name] {
				r = true
			}
			return !r
		})
	}
	return r
}

func mustRead(p string) []byte {
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	return b
}

func writeOverlay(path string, data []byte) {
	rel, err := filepath.Rel(*repo, path)
	if err != nil {
		die("%v", err)
	}
	dst := filepath.Join(*out, "src", rel)
	os.MkdirAll(filepath.Dir(dst), 0o755)
	if err := os.WriteFile(dst, data, 0o644); err != nil {
		die("%v", err)
	}
	overlay[path] = dst
}

func (in *inst) apply() []byte {
	e := in.edits
	sort.SliceStable(e, func(i, j int) bool {
		if e[i].off != e[j].off {
			return e[i].off < e[j].off
		}
		// pure insertions before replacements at the same offset
		return e[i].del == 0 && e[j].del != 0
	})
	var b strings.Builder
	pos := 0
	for _, x := range e {
		b.WriteString(string(in.src[pos:x.off]))
		b.WriteString(x.text)
		pos = x.off + x.del
	}
	b.WriteString(string(in.src[pos:]))
	return []byte(b.String())
}
