// Command instr writes an overlay for building the library with scheduling
// points: calls of verifYield before the statements that may communicate
// between goroutines (those of functions that use package-level variables which
// change, or synchronization, or belong to clients). It never changes what the
// code computes.
//
//	instr REPO OUTDIR LEVEL   writes OUTDIR/overlay.json
//
// LEVEL 2: points and non-blocking locks; 1: points only; 0: only the hook.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package ofxgo

// VerifYield is called at scheduling points.
var VerifYield func(point string)

// VerifBlocked is called while a lock is taken.
var VerifBlocked func()

func verifYield(point string) {
	if f := VerifYield; f != nil {
		f(point)
	}
}

func verifLock(try func() bool) {
	for !try() {
		if f := VerifBlocked; f != nil {
			f()
		}
	}
}
`

var constant = map[string]bool{"regexp.MustCompile": true, "errors.New": true, "fmt.Errorf": true, "strings.NewReplacer": true, "time.FixedZone": true, "reflect.TypeOf": true, "big.NewInt": true, "big.NewRat": true}

var syncNames = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "Load": true, "Store": true, "Swap": true, "CompareAndSwap": true, "LoadOrStore": true, "LoadAndDelete": true}

type file struct {
	path string
	src  []byte
	ast  *ast.File
	ins  map[int]string
	cut  map[int]int
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch t := e.(type) {
		case *ast.Ident:
			return t
		case *ast.SelectorExpr:
			e = t.X
		case *ast.IndexExpr:
			e = t.X
		case *ast.SliceExpr:
			e = t.X
		case *ast.StarExpr:
			e = t.X
		case *ast.ParenExpr:
			e = t.X
		case *ast.UnaryExpr:
			e = t.X
		default:
			return nil
		}
	}
}

func main() {
	repo, out, level := os.Args[1], os.Args[2], os.Args[3]
	os.MkdirAll(out, 0755)
	fs := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	sort.Strings(names)
	var files []*file
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			continue
		}
		f, err := parser.ParseFile(fs, n, src, parser.ParseComments)
		if err != nil || f.Name.Name != "ofxgo" {
			continue
		}
		files = append(files, &file{n, src, f, map[int]string{}, map[int]int{}})
	}
	mutable := globals(files)
	clients := map[string]bool{} // types with RawRequest
	for _, f := range files {
		for _, d := range f.ast.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "RawRequest" {
				clients[recv(fd)] = true
			}
		}
	}
	delete(clients, "")
	overlay := map[string]string{}
	hp := filepath.Join(out, "zz_verif_hook.go")
	os.WriteFile(hp, []byte(hook), 0644)
	overlay[filepath.Join(repo, "zz_verif_hook.go")] = hp
	points := 0
	if level != "0" {
		for _, f := range files {
			for _, d := range f.ast.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || !interesting(fd, mutable, clients) {
					continue
				}
				points += f.instrument(fs, fd.Body, level == "2")
			}
			if len(f.ins) == 0 {
				continue
			}
			p := filepath.Join(out, filepath.Base(f.path))
			os.WriteFile(p, f.render(), 0644)
			overlay[f.path] = p
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var ms []string
	for n := range mutable {
		ms = append(ms, n)
	}
	sort.Strings(ms)
	os.WriteFile(filepath.Join(out, "points.txt"), []byte(fmt.Sprintf("%d %v\n", points, ms)), 0644)
}

// globals finds the package-level variables that may change.
func globals(files []*file) map[string]bool {
	vars := map[string]ast.Expr{}
	types := map[string]ast.Expr{}
	for _, f := range files {
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					vars[n.Name] = nil
					types[n.Name] = vs.Type
					if i < len(vs.Values) {
						vars[n.Name] = vs.Values[i]
					}
				}
			}
		}
	}
	mutable := map[string]bool{}
	mark := func(e ast.Expr) {
		if id := rootIdent(e); id != nil {
			if _, ok := vars[id.Name]; ok {
				mutable[id.Name] = true
			}
		}
	}
	for n, v := range vars {
		if t, ok := types[n].(*ast.SelectorExpr); ok {
			if p, ok := t.X.(*ast.Ident); ok && (p.Name == "sync" || p.Name == "atomic" || p.Name == "bytes" || p.Name == "rand") {
				mutable[n] = true
			}
		}
		switch t := v.(type) {
		case *ast.CallExpr:
			if id, ok := t.Fun.(*ast.Ident); ok && (id.Name == "make" || id.Name == "new") {
				mutable[n] = true
			}
		case *ast.UnaryExpr:
			mutable[n] = true
		}
	}
	for _, f := range files {
		ast.Inspect(f.ast, func(n ast.Node) bool {
			if fd, ok := n.(*ast.FuncDecl); ok && fd.Name.Name == "init" && fd.Recv == nil {
				return false
			}
			switch t := n.(type) {
			case *ast.AssignStmt:
				if t.Tok != token.DEFINE {
					for _, l := range t.Lhs {
						mark(l)
					}
				}
			case *ast.IncDecStmt:
				mark(t.X)
			case *ast.UnaryExpr:
				if t.Op == token.AND {
					mark(t.X)
				}
			case *ast.SliceExpr:
				mark(t.X)
			case *ast.RangeStmt:
				if t.Tok == token.ASSIGN {
					mark(t.Key)
					if t.Value != nil {
						mark(t.Value)
					}
				}
			case *ast.CallExpr:
				if s, ok := t.Fun.(*ast.SelectorExpr); ok {
					if id := rootIdent(s.X); id != nil {
						if v, ok := vars[id.Name]; ok {
							if c, ok := v.(*ast.CallExpr); ok && constant[name(c.Fun)] {
								break
							}
							mutable[id.Name] = true
						}
					}
				}
				if id, ok := t.Fun.(*ast.Ident); ok && len(t.Args) > 0 && (id.Name == "copy" || id.Name == "delete" || id.Name == "clear" || id.Name == "append") {
					mark(t.Args[0])
				}
			}
			return true
		})
	}
	return mutable
}

func name(e ast.Expr) string {
	if s, ok := e.(*ast.SelectorExpr); ok {
		if p, ok := s.X.(*ast.Ident); ok {
			return p.Name + "." + s.Sel.Name
		}
	}
	return ""
}

func typeName(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.StarExpr:
		return typeName(t.X)
	case *ast.Ident:
		return t.Name
	case *ast.SelectorExpr:
		return name(t)
	}
	return ""
}

func recv(fd *ast.FuncDecl) string {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return ""
	}
	return typeName(fd.Recv.List[0].Type)
}

func interesting(fd *ast.FuncDecl, mutable, clients map[string]bool) bool {
	if fd.Name.Name == "init" && fd.Recv == nil {
		return false
	}
	if clients[recv(fd)] {
		return len(fd.Body.List) > 1
	}
	if fd.Type.Params != nil {
		for _, p := range fd.Type.Params.List {
			n := typeName(p.Type)
			if clients[n] || n == "Client" || strings.HasPrefix(n, "http.") {
				return true
			}
		}
	}
	found := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.Ident:
			if mutable[t.Name] {
				found = true
			}
		case *ast.SelectorExpr:
			if syncNames[t.Sel.Name] {
				found = true
			}
		case *ast.SendStmt, *ast.SelectStmt:
			found = true
		}
		return !found
	})
	return found
}

func (f *file) instrument(fs *token.FileSet, body ast.Node, locks bool) int {
	n := 0
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.DeclStmt:
				continue
			}
			p := fs.Position(s.Pos())
			f.ins[p.Offset] = fmt.Sprintf("verifYield(%q);", fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
			n++
			if !locks {
				continue
			}
			if e, ok := s.(*ast.ExprStmt); ok {
				if c, ok := e.X.(*ast.CallExpr); ok && len(c.Args) == 0 {
					if sel, ok := c.Fun.(*ast.SelectorExpr); ok && (sel.Sel.Name == "Lock" || sel.Sel.Name == "RLock") {
						// X.Lock() becomes verifLock(X.TryLock)
						from, to := fs.Position(c.Pos()).Offset, fs.Position(c.End()).Offset
						x := string(f.src[from:fs.Position(sel.X.End()).Offset])
						f.ins[p.Offset] += fmt.Sprintf("verifLock(%s.Try%s)", x, sel.Sel.Name)
						f.cut[from] = to
					}
				}
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.BlockStmt:
			list(t.List)
		case *ast.CaseClause:
			list(t.Body)
		case *ast.CommClause:
			list(t.Body)
		}
		return true
	})
	return n
}

func (f *file) render() []byte {
	var at []int
	for o := range f.ins {
		at = append(at, o)
	}
	sort.Ints(at)
	var b strings.Builder
	last := 0
	for _, o := range at {
		if o < last {
			continue
		}
		b.Write(f.src[last:o])
		b.WriteString(f.ins[o])
		last = o
		if to, ok := f.cut[o]; ok {
			last = to
		}
	}
	b.Write(f.src[last:])
	return []byte(b.String())
}
