package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// features finds the initialisation code of a package that depends on the CPU's
// features, so that it can be repeated when the simulated CPU changes: variables
// whose initialiser asks for a feature, and init functions that ask for one or
// write such a variable.
type features struct {
	files []*ast.File
	vars  map[string]bool
	funcs map[string]bool
	inits map[*ast.FuncDecl]string
	order []string
	runs  []string
}

func newFeatures() *features {
	return &features{vars: map[string]bool{}, funcs: map[string]bool{}, inits: map[*ast.FuncDecl]string{}}
}

// asks tells whether code asks for a feature, directly or through a function
// that does.
func (ft *features) asks(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if id.Name == "X86" || ft.funcs[id.Name] {
				r = true
			}
		}
		return !r
	})
	return r
}

func mentions(n ast.Node, vars map[string]bool) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			// a field or another package's name
			ast.Inspect(s.X, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && vars[id.Name] {
					r = true
				}
				return !r
			})
			return false
		}
		if id, ok := n.(*ast.Ident); ok && vars[id.Name] {
			r = true
		}
		return !r
	})
	return r
}

// written lists the package-level names a function assigns to.
func written(fd *ast.FuncDecl) map[string]bool {
	w := map[string]bool{}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && a.Tok != token.DEFINE {
			for _, l := range a.Lhs {
				if id, ok := l.(*ast.Ident); ok {
					w[id.Name] = true
				}
			}
		}
		return true
	})
	return w
}

func (ft *features) specs(fn func(f *ast.File, vs *ast.ValueSpec)) {
	for _, f := range ft.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					fn(f, s.(*ast.ValueSpec))
				}
			}
		}
	}
}

func (ft *features) fns(fn func(fd *ast.FuncDecl)) {
	for _, f := range ft.files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Recv == nil {
				fn(fd)
			}
		}
	}
}

// chooses tells whether a function may be one that selects an implementation:
// no arguments, and a function or a plain named type as its result.
func chooses(fd *ast.FuncDecl) bool {
	if fd.Type.Params.NumFields() > 0 || fd.Type.Results.NumFields() == 0 {
		return false
	}
	for _, r := range fd.Type.Results.List {
		switch r.Type.(type) {
		case *ast.FuncType, *ast.Ident, *ast.InterfaceType:
		default:
			return false
		}
	}
	return true
}

func (ft *features) solve() {
	for again := true; again; {
		again = false
		ft.fns(func(fd *ast.FuncDecl) {
			if fd.Name.Name != "init" && !ft.funcs[fd.Name.Name] && ft.asks(fd.Body) {
				ft.funcs[fd.Name.Name] = true
				again = true
			}
		})
	}
	all := map[string]bool{}
	ft.specs(func(f *ast.File, vs *ast.ValueSpec) {
		for _, id := range vs.Names {
			all[id.Name] = true
		}
	})
	for again := true; again; {
		again = false
		mark := func(n string) {
			if n != "_" && !ft.vars[n] {
				ft.vars[n] = true
				again = true
			}
		}
		choosers := map[string]bool{}
		ft.fns(func(fd *ast.FuncDecl) {
			if chooses(fd) && mentions(fd.Body, ft.vars) {
				choosers[fd.Name.Name] = true
			}
		})
		ft.specs(func(f *ast.File, vs *ast.ValueSpec) {
			for _, v := range vs.Values {
				if ft.asks(v) || mentions(v, ft.vars) || mentions(v, choosers) {
					for _, id := range vs.Names {
						mark(id.Name)
					}
				}
			}
		})
		ft.fns(func(fd *ast.FuncDecl) {
			if fd.Name.Name != "init" || ft.inits[fd] != "" {
				return
			}
			w := written(fd)
			dep := ft.asks(fd.Body) || mentions(fd.Body, ft.vars)
			for n := range w {
				dep = dep || ft.vars[n]
			}
			if !dep {
				return
			}
			ft.inits[fd] = fmt.Sprintf("verifFeatInit%d", len(ft.runs))
			ft.runs = append(ft.runs, ft.inits[fd])
			again = true
			for n := range w {
				if all[n] {
					mark(n)
				}
			}
		})
	}
	// in the order of the files, as the toolchain runs them
	var rs []string
	ft.fns(func(fd *ast.FuncDecl) {
		if n := ft.inits[fd]; n != "" {
			rs = append(rs, n)
		}
	})
	ft.runs = rs
}

// redetect is the code that repeats the initialisers of one file.
func (ft *features) redetect(f *ast.File, in *inst) string {
	text := func(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }
	var b strings.Builder
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			var l, r []string
			dep := false
			for _, id := range vs.Names {
				l = append(l, id.Name)
				dep = dep || ft.vars[id.Name]
			}
			if !dep {
				continue
			}
			for _, v := range vs.Values {
				r = append(r, text(v))
			}
			if len(r) > 0 {
				fmt.Fprintf(&b, "\t%s = %s\n", strings.Join(l, ", "), strings.Join(r, ", "))
			} else {
				for _, n := range l {
					if n != "_" {
						fmt.Fprintf(&b, "\t%s = *new(%s)\n", n, text(vs.Type))
					}
				}
			}
		}
	}
	if b.Len() == 0 {
		return ""
	}
	n := fmt.Sprintf("verifFeatVars%d", len(ft.order))
	ft.order = append(ft.order, n)
	return "\n\nfunc " + n + "() {\n" + b.String() + "}\n"
}

func (ft *features) code(pkg, dir string) string {
	if len(ft.order)+len(ft.runs) == 0 {
		return ""
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport verifrt %q\n\nfunc verifRedetect() {\n", pkg, rtPath)
	// twice: one variable may depend on one that is initialised later
	for i := 0; i < 2; i++ {
		for _, n := range ft.order {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
	}
	for _, n := range ft.runs {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	fmt.Fprintf(&b, "}\n\nfunc init() {\n")
	for _, n := range ft.runs {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	fmt.Fprintf(&b, "\tverifrt.RegisterFeatures(%q, verifRedetect)\n}\n", dir)
	return b.String()
}

// instructions of the optional features the library asks for, in the order of
// the engine's feature numbers
var optional = []*regexp.Regexp{
	regexp.MustCompile(`^V?AES(ENC|ENCLAST|DEC|DECLAST|IMC|KEYGENASSIST)$`),
	regexp.MustCompile(`^(MULX|RORX|SARX|SHLX|SHRX|PDEP|PEXT|BZHI)[LQ]$`),
	regexp.MustCompile(`^(ADCX|ADOX)[LQ]$`),
}

var (
	identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)
	labelRe = regexp.MustCompile(`^\s*[A-Za-z_][A-Za-z0-9_]*:`)
	defRe   = regexp.MustCompile(`^\s*#define\s+([A-Za-z_][A-Za-z0-9_]*)(\(([^)]*)\))?`)
	undefRe = regexp.MustCompile(`^\s*#undef\s+([A-Za-z_][A-Za-z0-9_]*)`)
)

type macro struct {
	params map[string]bool
	body   string
}

// markAsm makes assembly routines note which optional instructions they have
// executed: a store before the first such instruction of every straight piece
// of code. A store changes neither registers nor flags.
func markAsm(files []string, pkgs map[string]*pkgInfo) {
	done := map[string]bool{}
	sort.Strings(files)
	for _, path := range files {
		out, any := markFile(string(mustRead(path)))
		if !any {
			continue
		}
		rel, _ := filepath.Rel(*repo, path)
		dir := filepath.Dir(rel)
		if pkgs[dir] == nil {
			continue
		}
		writeOverlay(path, []byte(out))
		if !done[dir] {
			done[dir] = true
			writeOverlay(filepath.Join(*repo, dir, "zz_verif_asm.go"), []byte("package "+pkgs[dir].name+"\n\nimport verifrt "+strconv.Quote(rtPath)+"\n\nvar verifRan [4]byte\n\nfunc init() { verifrt.RegisterAsm("+strconv.Quote(dir)+", &verifRan) }\n"))
		}
	}
}

func markFile(src string) (string, bool) {
	macros := map[string]*macro{}
	var out []string
	marked := [3]bool{}
	any := false
	lines := strings.Split(src, "\n")
	strip := func(l string) string {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		return l
	}
	var need func(text string, seen map[string]bool, n *[3]bool)
	need = func(text string, seen map[string]bool, n *[3]bool) {
		for _, w := range identRe.FindAllString(text, -1) {
			if seen[w] {
				continue
			}
			for i, re := range optional {
				if re.MatchString(w) {
					n[i] = true
				}
			}
			if m := macros[w]; m != nil {
				s := map[string]bool{w: true}
				for k := range seen {
					s[k] = true
				}
				for k := range m.params {
					s[k] = true
				}
				need(m.body, s, n)
			}
		}
	}
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if m := defRe.FindStringSubmatch(l); m != nil {
			mc := &macro{params: map[string]bool{}}
			for _, p := range strings.Split(m[3], ",") {
				if p = strings.TrimSpace(p); p != "" {
					mc.params[p] = true
				}
			}
			body := strip(l[len(m[0]):])
			out = append(out, l)
			for cont(l) && i+1 < len(lines) {
				i++
				l = lines[i]
				body += "\n" + strip(l)
				out = append(out, l)
			}
			mc.body = body
			macros[m[1]] = mc
			continue
		}
		if m := undefRe.FindStringSubmatch(l); m != nil {
			delete(macros, m[1])
		}
		if strings.HasPrefix(strings.TrimSpace(l), "TEXT") {
			marked = [3]bool{}
			out = append(out, l)
			continue
		}
		if m := labelRe.FindString(l); m != "" {
			marked = [3]bool{}
			out = append(out, m)
			l = l[len(m):]
		}
		t := strings.TrimSpace(strip(l))
		if strings.HasPrefix(t, "#") || strings.HasPrefix(t, "DATA") || strings.HasPrefix(t, "GLOBL") {
			out = append(out, l)
			continue
		}
		var n [3]bool
		need(t, map[string]bool{}, &n)
		for k := range n {
			if n[k] && !marked[k] {
				marked[k] = true
				any = true
				out = append(out, fmt.Sprintf("\tMOVB $1, ·verifRan+%d(SB)", k))
			}
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n"), any
}

// cont tells whether a macro goes on in the next line.
func cont(l string) bool {
	t := strings.TrimRight(l, " \t\r")
	if strings.HasSuffix(t, "\\") {
		return true
	}
	// the assembler takes a comment after the backslash
	if i := strings.Index(t, "//"); i >= 0 {
		return strings.HasSuffix(strings.TrimRight(t[:i], " \t"), "\\")
	}
	return false
}
