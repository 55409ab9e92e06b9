// Command instr copies the non-test Go sources of a module and instruments the copy for exploration.
//
// It works on syntax trees and type information only and knows no names of the code under test:
//   - a scheduling point before every statement of every function body,
//   - range loops over maps iterate in an order decided by the explorer,
//   - time.Now/Since/Until read a virtual clock,
//   - "sync" and the PBKDF2 package are replaced by scheduler-aware / round-limited equivalents,
//   - go statements start threads known to the scheduler.
//
// It also copies bbolt with "sync" replaced and its file writes and syncs routed through a recorder.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off  int
	end  int // == off for insertions
	text string
	seq  int
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if b := filepath.Base(p); rel != "." && (strings.HasPrefix(b, ".") || b == "testdata") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		base := filepath.Base(p)
		if strings.HasSuffix(base, "_test.go") || !(strings.HasSuffix(base, ".go") || base == "go.mod" || base == "go.sum" || strings.HasSuffix(base, ".s")) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	DepOnly    bool
	ImportMap  map[string]string
	Module     *struct {
		Path string
		Main bool
		Dir  string
	}
}

func goList(dir string, args ...string) []pkgInfo {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(&out)
	var r []pkgInfo
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		r = append(r, p)
	}
	return r
}

var sites int
var siteFile *os.File
var leave = map[string]bool{}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "directory for the instrumented copy (created)")
	boltOut := flag.String("bolt", "", "directory for the instrumented bbolt copy")
	plain := flag.Bool("plain", false, "copy only, no instrumentation")
	plainBolt := flag.Bool("plainbolt", false, "do not instrument bbolt")
	skip := flag.String("skip", "", "files (relative, separated by commas) to leave alone")
	realKDF := flag.Bool("realkdf", false, "keep the real PBKDF2")
	flag.Parse()
	if err := copyTree(*repo, *out); err != nil {
		fatal("copy: %v", err)
	}
	var err error
	siteFile, err = os.Create(filepath.Join(*out, "SITES"))
	if err != nil {
		fatal("%v", err)
	}
	pkgs := goList(*out, "-export", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Standard,DepOnly,ImportMap,Module", "./...")
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	for _, f := range strings.Split(*skip, ",") {
		leave[f] = true
	}
	if !*plain {
		for _, p := range pkgs {
			if p.Module == nil || !p.Module.Main || p.Standard {
				continue
			}
			instrument(p, *out, exports, *realKDF)
		}
	}
	fmt.Fprintf(siteFile, "total %d\n", sites)
	siteFile.Close()

	if *boltOut != "" {
		for _, p := range pkgs {
			if p.ImportPath == "go.etcd.io/bbolt" {
				copyBolt(p.Dir, *boltOut, p.GoFiles, !*plainBolt)
			}
		}
	}
}

func copyBolt(src, dst string, files []string, inst bool) {
	if err := os.MkdirAll(dst, 0o755); err != nil {
		fatal("%v", err)
	}
	gm, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	os.WriteFile(filepath.Join(dst, "go.mod"), gm, 0o644)
	n := 0
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			fatal("%v", err)
		}
		s := string(b)
		rep := func(old, new string) {
			if strings.Contains(s, old) {
				n++
				s = strings.ReplaceAll(s, old, new)
			}
		}
		if inst {
			rep("\t\"sync\"\n", "\tsync \"verif.local/shim/vsync\"\n\tvfile \"verif.local/shim/vfile\"\n")
			rep("db.ops.writeAt = db.file.WriteAt", "db.ops.writeAt = vfile.WriteAt(db.file)\n\tvfile.Opened(db.file, db.Close)")
			rep("db.file.Truncate(int64(sz))", "vfile.Truncate(db.file, int64(sz))")
			rep("err := db.file.Sync()", "err := vfile.Sync(db.file)")
			if f == "bolt_linux.go" {
				rep("\t\"syscall\"\n", "\tvfile \"verif.local/shim/vfile\"\n")
				rep("syscall.Fdatasync(int(db.file.Fd()))", "vfile.Sync(db.file)")
			}
		}
		if err := os.WriteFile(filepath.Join(dst, f), []byte(s), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if inst && n < 6 {
		fatal("bbolt hooks: only %d of the expected places found", n)
	}
}

func instrument(p pkgInfo, root string, exports map[string]string, realKDF bool) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var srcs [][]byte
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(name)
		if err != nil {
			fatal("%v", err)
		}
		a, err := parser.ParseFile(fset, name, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("parse: %v", err)
		}
		files = append(files, a)
		names = append(names, name)
		srcs = append(srcs, b)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Error: func(error) {},
	}
	conf.Check(p.ImportPath, fset, files, info) // errors tolerated: the build reports them

	for i, a := range files {
		if r, err := filepath.Rel(root, names[i]); err == nil && leave[filepath.ToSlash(r)] {
			continue
		}
		res := rewriteFile(fset, a, srcs[i], info, realKDF)
		if err := os.WriteFile(names[i], res, 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// arrow returns the receive operation x is, if it is one.
func arrow(x ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// manyValued tells whether the arguments are those of f(g()) with a g of several results.
func manyValued(info *types.Info, args []ast.Expr) bool {
	if len(args) != 1 {
		return false
	}
	_, ok := info.Types[args[0]].Type.(*types.Tuple)
	return ok
}

func rewriteFile(fset *token.FileSet, a *ast.File, src []byte, info *types.Info, realKDF bool) []byte {
	tf := fset.File(a.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	add := func(o, e int, t string) { edits = append(edits, edit{o, e, t, len(edits)}) }
	used := false
	timeName := ""

	for _, im := range a.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		repl, name := "", ""
		switch path {
		case "sync":
			repl, name = "verif.local/shim/vsync", "sync"
		case "golang.org/x/crypto/pbkdf2", "crypto/pbkdf2":
			if realKDF || path == "crypto/pbkdf2" {
				continue
			}
			repl, name = "verif.local/shim/vpbkdf2", "pbkdf2"
		case "time":
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
			continue
		default:
			continue
		}
		t := strconv.Quote(repl)
		if im.Name == nil {
			t = name + " " + t
		}
		add(off(im.Path.Pos()), off(im.Path.End()), t)
	}

	point := func(s ast.Stmt) {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			return
		}
		used = true
		pos := fset.Position(s.Pos())
		fmt.Fprintf(siteFile, "%d %s:%d\n", sites, filepath.Base(filepath.Dir(pos.Filename))+"/"+filepath.Base(pos.Filename), pos.Line)
		add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("vsched__.P(%d); ", sites))
		sites++
	}
	uniq := 0
	inComm, two := map[ast.Node]bool{}, map[ast.Node]bool{}
	var inFunc int
	ast.Inspect(a, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			// Directives such as go:nosplit have no business here, but leave such functions alone.
			if n.Doc != nil {
				for _, c := range n.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
						return false
					}
				}
			}
			inFunc++
		case *ast.BlockStmt:
			for _, s := range n.List {
				point(s)
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				point(s)
			}
		case *ast.CommClause:
			for _, s := range n.Body {
				point(s)
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && timeName != "" && id.Name == timeName {
				if o := info.Uses[id]; o != nil {
					if _, isPkg := o.(*types.PkgName); !isPkg {
						break
					}
				}
				switch n.Sel.Name {
				case "Now", "Since", "Until":
					used = true
					add(off(n.X.Pos()), off(n.X.End()), "vsched__")
				}
			}
		case *ast.CallExpr:
			id, ok := n.Fun.(*ast.Ident)
			if ok && id.Name == "close" && len(n.Args) == 1 {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					used = true
					add(off(id.Pos()), off(id.End()), "vsched__.Close")
				}
				break
			}
			// Copying bytes is not atomic.
			if !ok || id.Name != "copy" || len(n.Args) != 2 {
				break
			}
			if _, ok := info.Uses[id].(*types.Builtin); !ok || !isBytes(info.Types[n.Args[0]].Type) || !isBytes(info.Types[n.Args[1]].Type) {
				break
			}
			used = true
			fmt.Fprintf(siteFile, "%d %s\n", sites, "copy")
			add(off(id.Pos()), off(id.End()), "vsched__.Copy")
			add(off(n.Lparen)+1, off(n.Lparen)+1, fmt.Sprintf("%d, ", sites))
			sites++
		case *ast.GoStmt:
			used = true
			_, lit := n.Call.Fun.(*ast.FuncLit)
			tv, known := info.Types[n.Call.Fun]
			switch {
			case lit && len(n.Call.Args) == 0:
				add(off(n.Go), off(n.Call.Fun.Pos()), "vsched__.Go(")
				add(off(n.Call.Lparen), off(n.Call.Rparen)+1, ")")
			case !known || !tv.IsValue() || manyValued(info, n.Call.Args):
				add(off(n.Go), off(n.Call.Pos()), "vsched__.Go(func() { ")
				add(off(n.End()), off(n.End()), " })")
			default: // function and arguments are evaluated here, not in the new goroutine
				call := "vsched__.GoCall("
				if n.Call.Ellipsis.IsValid() {
					call = "vsched__.GoCallSlice("
					add(off(n.Call.Ellipsis), off(n.Call.Ellipsis)+3, "")
				}
				sep := ""
				if len(n.Call.Args) > 0 {
					sep = ", "
				}
				add(off(n.Go), off(n.Call.Fun.Pos()), call)
				add(off(n.Call.Lparen), off(n.Call.Lparen)+1, sep)
			}
		case *ast.SendStmt:
			if inComm[n] {
				break
			}
			used = true
			add(off(n.Pos()), off(n.Pos()), "vsched__.Send(")
			add(off(n.Arrow), off(n.Arrow)+2, ")(")
			add(off(n.End()), off(n.End()), ")")
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := arrow(n.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := arrow(n.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || inComm[n] {
				break
			}
			used = true
			f := "vsched__.Recv("
			if two[n] {
				f = "vsched__.Recv2("
			}
			add(off(n.OpPos), off(n.OpPos)+2, f)
			add(off(n.End()), off(n.End()), ")")
		case *ast.SelectStmt:
			if len(n.Body.List) == 0 {
				break
			}
			used = true
			uniq++
			var head, cases []string
			def := "false"
			for i, cl := range n.Body.List {
				cc := cl.(*ast.CommClause)
				v := fmt.Sprintf("vcomm%d_%d__", uniq, i)
				text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
				mark := func(x ast.Node) {
					ast.Inspect(x, func(m ast.Node) bool {
						if m != nil {
							inComm[m] = true
						}
						return true
					})
				}
				recv := func(u *ast.UnaryExpr) { head = append(head, "vsched__.RecvCase("+text(u.X)+")") }
				switch st := cc.Comm.(type) {
				case nil:
					def = "true"
					continue
				case *ast.SendStmt:
					mark(st)
					head = append(head, "vsched__.SendCase("+text(st.Chan)+")("+text(st.Value)+")")
					add(off(cc.Case), off(cc.Colon), fmt.Sprintf("case %d", len(cases)))
				case *ast.ExprStmt:
					mark(st)
					recv(arrow(st.X))
					add(off(cc.Case), off(cc.Colon), fmt.Sprintf("case %d", len(cases)))
				case *ast.AssignStmt:
					mark(st)
					recv(arrow(st.Rhs[0]))
					var l []string
					for _, x := range st.Lhs {
						l = append(l, text(x))
					}
					get := ".V()"
					if len(l) == 2 {
						get = ".V2()"
					}
					add(off(cc.Case), off(cc.Colon)+1, fmt.Sprintf("case %d: %s %s %s%s; ", len(cases), strings.Join(l, ", "), st.Tok, v, get))
				}
				cases = append(cases, v)
			}
			init := ""
			if len(cases) > 0 {
				init = strings.Join(cases, ", ") + " := " + strings.Join(head, ", ") + "; "
			}
			add(off(n.Select), off(n.Body.Lbrace), "switch "+init+"vsched__.Select("+strings.Join(append([]string{def}, cases...), ", ")+") ")
			if def == "false" { // keeps terminating statements terminating
				add(off(n.Body.Rbrace), off(n.Body.Rbrace), "default: panic(\"select\"); ")
			}
		case *ast.RangeStmt:
			tv, ok := info.Types[n.X]
			if !ok || tv.Type == nil {
				break
			}
			_, isChan := tv.Type.Underlying().(*types.Chan)
			if _, isMap := tv.Type.Underlying().(*types.Map); !isMap && !isChan {
				break
			}
			used = true
			uniq++
			// "for k, v := range X {" -> "for k, v, e := MapRange(X); e.Next(&k, &v); {", which keeps the
			// scopes and the language version's rule on whether iterations share the variables.
			e := fmt.Sprintf("vent%d__", uniq)
			vars, pre := []string{}, ""
			for i, x := range []ast.Expr{n.Key, n.Value} {
				if isChan && i == 1 {
					break
				}
				name := fmt.Sprintf("v%s%d", e, i)
				if x != nil {
					if t := string(src[off(x.Pos()):off(x.End())]); t != "_" && n.Tok == token.DEFINE {
						name = t
					} else if t != "_" {
						pre += fmt.Sprintf(" %s = %s; ", t, name)
					}
				}
				vars = append(vars, name)
			}
			f := "MapRange"
			if isChan {
				f = "ChanRange"
			}
			add(off(n.For), off(n.X.Pos()), fmt.Sprintf("for %s, %s := vsched__.%s(", strings.Join(vars, ", "), e, f))
			add(off(n.X.End()), off(n.X.End()), fmt.Sprintf("); %s.Next(&%s); ", e, strings.Join(vars, ", &")))
			if pre != "" {
				add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, pre)
			}
		}
		return true
	})
	if used {
		add(off(a.Name.End()), off(a.Name.End()), "; import vsched__ \"verif.local/shim/vsched\"")
		if timeName != "" && timeName != "_" && timeName != "." {
			add(len(src), len(src), "\nvar _ "+timeName+".Duration\n")
		}
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// pure insertions before replacements at the same offset, in order of creation
		ri, rj := edits[i].end > edits[i].off, edits[j].end > edits[j].off
		if ri != rj {
			return !ri
		}
		return edits[i].seq < edits[j].seq
	})
	var buf bytes.Buffer
	last := 0
	for _, e := range edits {
		if e.off < last {
			continue // nested in a replaced region: cannot happen for the edits above
		}
		buf.Write(src[last:e.off])
		buf.WriteString(e.text)
		last = e.end
	}
	buf.Write(src[last:])
	return buf.Bytes()
}
