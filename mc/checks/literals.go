package checks

import (
	_ "embed"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/mc/model"
)

// Literal-directed inputs: constants which appear in the sources under test but
// not in the committed baseline join the alphabets of the explored spaces, so
// that special treatment of particular values is reached. They only extend the
// inputs; every verdict comes from observed behaviour.

//go:embed baseline_literals.txt
var baselineLiterals string

// Lit holds the literals not in the baseline.
var Lit struct {
	Strings []string
	Ints    []int64
}

// RepoDir is the tree under test.
const RepoDir = "/repo"

// names of environment variables a program may look at, and those which other
// parts than the program under test look at
var (
	envName = regexp.MustCompile(`^[A-Z][A-Z0-9]*_[A-Z0-9_]*$`)
	ownEnv  = regexp.MustCompile(`^(SSL|HTTP|HTTPS|NO|ALL|GO|MC|VERIF|LC|XDG|LD)_`)
)

// scanLiterals lists the literals of each file, as file, tab, literal.
func scanLiterals() (out []string) {
	seen := map[string]bool{}
	rel := func(f string) string { return strings.TrimPrefix(f, RepoDir+"/") + "\t" }
	for _, dir := range []string{RepoDir, RepoDir + "/cmd/ofx"} {
		files, _ := filepath.Glob(dir + "/*.go")
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			fs := token.NewFileSet()
			var s scanner.Scanner
			s.Init(fs.AddFile(f, fs.Base(), len(src)), src, func(token.Position, string) {}, 0)
			for {
				_, tok, lit := s.Scan()
				if tok == token.EOF {
					break
				}
				switch tok {
				case token.INT, token.CHAR, token.STRING, token.FLOAT:
					if lit = rel(f) + lit; !seen[lit] && len(lit) < 400 {
						seen[lit] = true
						out = append(out, lit)
					}
				}
			}
		}
	}
	// constant expressions such as 1<<10 or 64*1024
	for _, dir := range []string{RepoDir, RepoDir + "/cmd/ofx"} {
		files, _ := filepath.Glob(dir + "/*.go")
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(file, func(n ast.Node) bool {
				e, ok := n.(*ast.BinaryExpr)
				if !ok {
					return true
				}
				if v, ok := constInt(e); ok {
					if l := rel(f) + strconv.FormatInt(v, 10); !seen[l] {
						seen[l] = true
						out = append(out, l)
					}
					return false
				}
				return true
			})
		}
	}
	sort.Strings(out)
	return
}

// constInt evaluates an expression of integer literals.
func constInt(e ast.Expr) (int64, bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return constInt(e.X)
	case *ast.BasicLit:
		if e.Kind == token.INT {
			n, err := strconv.ParseInt(e.Value, 0, 64)
			return n, err == nil
		}
	case *ast.BinaryExpr:
		a, ok1 := constInt(e.X)
		b, ok2 := constInt(e.Y)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch e.Op {
		case token.SHL:
			if b >= 0 && b < 63 {
				return a << uint(b), true
			}
		case token.MUL:
			return a * b, true
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		}
	}
	return 0, false
}

// loadLiterals reads the working tree. Helper processes do not need it.
func loadLiterals() {
	base, baseAt := map[string]bool{}, map[string]bool{}
	for _, l := range strings.Split(baselineLiterals, "\n") {
		if u, err := strconv.Unquote(l); err == nil {
			_, lit, _ := strings.Cut(u, "\t")
			base[lit], baseAt[u] = true, true
		}
	}
	addS := func(s string) {
		for _, o := range Lit.Strings {
			if o == s {
				return
			}
		}
		if len(Lit.Strings) < 12 && s != "" {
			Lit.Strings = append(Lit.Strings, s)
		}
	}
	addI := func(n int64) {
		for _, o := range Lit.Ints {
			if o == n {
				return
			}
		}
		if len(Lit.Ints) < 18 {
			Lit.Ints = append(Lit.Ints, n)
		}
	}
	// literals new to the program first, then those new to a file
	var fresh, moved []string
	for _, l := range scanLiterals() {
		_, lit, _ := strings.Cut(l, "\t")
		switch {
		case !base[lit]:
			fresh = append(fresh, lit)
		case !baseAt[l] && len(lit) > 1 && lit != `""`:
			moved = append(moved, lit)
		}
	}
	for _, l := range append(fresh, moved...) {
		if n, err := strconv.ParseInt(l, 0, 64); err == nil {
			addI(n)
			addI(n + 1)
			addI(n - 1)
			continue
		}
		if s, err := strconv.Unquote(l); err == nil {
			if strings.ContainsAny(s, "\n%`") || strings.Contains(s, "xml:\"") {
				continue // messages, formats and tags
			}
			if strings.HasPrefix(l, "'") {
				addI(int64([]rune(s)[0]))
				addS("a" + s + "b")
				continue
			}
			addS(s)
			if t := strings.TrimSpace(s); len(t) < 12 {
				addS("a" + s + "b")
			}
		}
	}
	// nothing depends on the environment
	for _, l := range fresh {
		s, err := strconv.Unquote(l)
		if err == nil && envName.MatchString(s) && !ownEnv.MatchString(s) {
			if _, set := os.LookupEnv(s); !set {
				os.Setenv(s, "1234")
			}
		}
	}
	model.Extra.Strings = Lit.Strings
	model.Extra.Ints = Lit.Ints
}

// litSizes lists lengths suggested by new literals, up to max.
func litSizes(max int64) (out []int) {
	for _, n := range Lit.Ints {
		if n > 0 && n <= max {
			out = append(out, int(n))
		}
	}
	return
}

// DumpLiterals writes the baseline.
func DumpLiterals() string {
	var b strings.Builder
	for _, l := range scanLiterals() {
		b.WriteString(strconv.Quote(l) + "\n")
	}
	return b.String()
}
