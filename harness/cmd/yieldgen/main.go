// yieldgen rewrites the Go sources of the packages under test so that every statement is preceded by a
// scheduling point (zvsched.Point), which randomly yields or sleeps a few microseconds.  It changes no
// behaviour; it only widens the windows between statements so that rare interleavings become common.
// It prints the overlay map (original path -> rewritten path) for `go build -overlay`.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const pkgPath = "github.com/aceld/zinx/zvsched"

var pkgs = []string{"znet", "zasync_op", "znotify", "zutils", "zinterceptor", "zdecoder"}

// packages whose time.Now becomes zvsched.Now
var clocked = map[string]bool{"zutils": true}

func point() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zvsched"), Sel: ast.NewIdent("Point")}}}
}

func inject(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
		default:
			out = append(out, point())
		}
		out = append(out, s)
	}
	return out
}

func main() {
	repo, outDir := os.Args[1], os.Args[2]
	repl := map[string]string{}
	for _, p := range pkgs {
		files, _ := filepath.Glob(filepath.Join(repo, p, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			tree, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			skip := false
			for _, c := range tree.Comments {
				if c.Pos() < tree.Package && strings.Contains(c.Text(), "go:build") {
					skip = true
				}
			}
			if skip {
				continue
			}
			n := 0
			ast.Inspect(tree, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.BlockStmt:
					isSwitch := false
					for _, s := range b.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							isSwitch = true
						}
					}
					if !isSwitch && len(b.List) > 0 {
						b.List = inject(b.List)
						n++
					}
				case *ast.CaseClause:
					b.Body = inject(b.Body)
					n++
				case *ast.CommClause:
					b.Body = inject(b.Body)
					n++
				}
				return true
			})
			// the clock of the packages whose behaviour depends on the date can be set by the driver
			clock := false
			if clocked[p] {
				ast.Inspect(tree, func(x ast.Node) bool {
					if e, ok := x.(*ast.SelectorExpr); ok {
						if id, ok := e.X.(*ast.Ident); ok && id.Name == "time" && e.Sel.Name == "Now" && id.Obj == nil {
							id.Name = "zvsched"
							clock = true
						}
					}
					return true
				})
			}
			if n == 0 && !clock {
				continue
			}
			// import
			spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", pkgPath)}}
			tree.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, tree.Decls...)
			if clock {
				tree.Decls = append(tree.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
					Names: []*ast.Ident{ast.NewIdent("_")}, Type: &ast.SelectorExpr{X: ast.NewIdent("time"), Sel: ast.NewIdent("Duration")}}}})
			}
			tree.Comments = nil // comments would be misplaced by the insertions; none of them matters for the build
			var buf bytes.Buffer
			if err := printer.Fprint(&buf, fset, tree); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			dst := filepath.Join(outDir, p+"_"+filepath.Base(f))
			if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			repl[f] = dst
		}
	}
	src := filepath.Join(outDir, "zvsched.go")
	if err := os.WriteFile(src, []byte(vsched), 0644); err != nil {
		os.Exit(1)
	}
	repl[filepath.Join(repo, "zvsched", "zvsched.go")] = src
	_ = json.NewEncoder(os.Stdout).Encode(repl)
}

const vsched = `// Package zvsched: scheduling points, added at check time through an overlay.
package zvsched

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
)

// Level: 0 off; n: about one point in 2^(12-n) sleeps, one in 2^(8-n/2) yields.
var Level atomic.Int32

// Clock, if set, is what time.Now of the rewritten packages returns.
var Clock atomic.Value // of func() time.Time

func Now() time.Time {
	if f, ok := Clock.Load().(func() time.Time); ok {
		return f()
	}
	return time.Now()
}

func Point() {
	l := Level.Load()
	if l == 0 {
		return
	}
	r := rand.Uint32()
	if r&(1<<(13-uint(l))-1) == 0 {
		time.Sleep(time.Duration(1+(r>>16)%uint32(60*l)) * time.Microsecond)
	} else if (r>>8)&31 == 0 {
		runtime.Gosched()
	}
}
`
