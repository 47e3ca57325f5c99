// instrument REPO OUTDIR writes instrumented copies of the library's source
// files, and OUTDIR/overlay.json for go build -overlay:
//
//   - sync, sync/atomic and time are replaced by vsync, vatomic and vtime,
//   - go statements become calls of sched.GoCall,
//   - every package registers its package-level variables with sched.
//
// Nothing else is changed, and nothing in REPO is written.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int
	text     string
}

var shims = map[string][2]string{
	"sync":        {"sync", "verif.local/h/vsync"},
	"sync/atomic": {"atomic", "verif.local/h/vatomic"},
	"time":        {"time", "verif.local/h/vtime"},
}

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(1)
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	dirs := map[string]bool{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		n := fi.Name()
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(n, ".") || n == "cmd" || n == "testdata" || n == "vendor" || strings.HasPrefix(n, "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			dirs[filepath.Dir(p)] = true
		}
		return nil
	})
	var list []string
	for d := range dirs {
		list = append(list, d)
	}
	sort.Strings(list)
	stats := map[string]int{}
	for i, d := range list {
		files, _ := filepath.Glob(filepath.Join(d, "*.go"))
		var vars []string
		pkg := ""
		type parsed struct {
			path string
			src  []byte
			f    *ast.File
		}
		var ps []parsed
		fset := token.NewFileSet()
		for _, p := range files {
			if strings.HasSuffix(p, "_test.go") {
				continue
			}
			src, err := os.ReadFile(p)
			if err != nil {
				die(err)
			}
			f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
			if err != nil {
				die(err)
			}
			constrained := false
			for _, cg := range f.Comments {
				if cg.Pos() < f.Package {
					for _, c := range cg.List {
						if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
							constrained = true
						}
					}
				}
			}
			if constrained && !strings.Contains(string(src), "linux") && !strings.Contains(string(src), "amd64") {
				// leave files that may not be part of this build alone, unless they use a shimmed package
				stats["constrained"]++
			}
			ps = append(ps, parsed{p, src, f})
			if !constrained {
				pkg = f.Name.Name
				for _, dcl := range f.Decls {
					g, ok := dcl.(*ast.GenDecl)
					if !ok || g.Tok != token.VAR {
						continue
					}
					for _, sp := range g.Specs {
						for _, n := range sp.(*ast.ValueSpec).Names {
							if n.Name != "_" {
								vars = append(vars, n.Name)
							}
						}
					}
				}
			}
		}
		if pkg == "" || pkg == "main" {
			continue
		}
		for j, p := range ps {
			if p.f.Name.Name != pkg {
				continue
			}
			off := func(q token.Pos) int { return fset.Position(q).Offset }
			var eds []edit
			for _, im := range p.f.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				sh, ok := shims[path]
				if !ok {
					continue
				}
				stats[path]++
				if im.Name != nil {
					eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), strconv.Quote(sh[1])})
				} else {
					eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), sh[0] + " " + strconv.Quote(sh[1])})
				}
			}
			gos := 0
			ast.Inspect(p.f, func(n ast.Node) bool {
				g, ok := n.(*ast.GoStmt)
				if !ok {
					return true
				}
				c := g.Call
				if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "close" || id.Name == "panic" || id.Name == "print" || id.Name == "println") {
					return true
				}
				gos++
				name := "verifsched.GoCall("
				if c.Ellipsis.IsValid() {
					name = "verifsched.GoCallSlice("
					eds = append(eds, edit{off(c.Ellipsis), off(c.Ellipsis) + 3, ""})
				}
				eds = append(eds, edit{off(g.Go), off(c.Fun.Pos()), name})
				sep := ""
				if len(c.Args) > 0 {
					sep = ", "
				}
				eds = append(eds, edit{off(c.Fun.End()), off(c.Lparen) + 1, sep})
				return true
			})
			if gos > 0 {
				stats["go"] += gos
				eds = append(eds, edit{off(p.f.Name.End()), off(p.f.Name.End()), "; import verifsched \"verif.local/h/sched\""})
			}
			if len(eds) == 0 {
				continue
			}
			sort.SliceStable(eds, func(a, b int) bool { return eds[a].pos < eds[b].pos })
			var b strings.Builder
			at := 0
			for _, e := range eds {
				b.Write(p.src[at:e.pos])
				b.WriteString(e.text)
				at = e.end
			}
			b.Write(p.src[at:])
			o := filepath.Join(out, fmt.Sprintf("f%d_%d.go", i, j))
			if err := os.WriteFile(o, []byte("//line "+p.path+":1\n"+b.String()), 0o644); err != nil {
				die(err)
			}
			overlay[p.path] = o
		}
		if len(vars) > 0 {
			sort.Strings(vars)
			var b strings.Builder
			fmt.Fprintf(&b, "package %s\n\nimport verifsched \"verif.local/h/sched\"\n\nfunc init() {\n\tverifsched.Var(\n", pkg)
			for _, v := range vars {
				fmt.Fprintf(&b, "\t\t&%s,\n", v)
			}
			b.WriteString("\t)\n}\n")
			o := filepath.Join(out, fmt.Sprintf("v%d.go", i))
			if err := os.WriteFile(o, []byte(b.String()), 0o644); err != nil {
				die(err)
			}
			overlay[filepath.Join(d, "zz_verif_vars.go")] = o
			stats["vars"] += len(vars)
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		die(err)
	}
	s, _ := json.Marshal(stats)
	os.WriteFile(filepath.Join(out, "stats.json"), s, 0o644)
}
