package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Import rewriting: instrumented code reaches these packages through shims.
var shims = map[string]string{
	"sync":      "vharness/vrt/vsync",
	"net":       "vharness/vrt/vnet",
	"net/rpc":   "vharness/vrt/vrpc",
	"net/http":  "vharness/vrt/vhttp",
	"math/rand": "vharness/vrt/vrand",
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

type edit struct {
	from, to int
	text     string
}

// instrument writes instrumented copies of every package of /repo (and of the
// go-narb dependency) below tmp and returns the overlay file and the mod file.
func instrument(tmp string, env []string) (overlay, modfile string, note string, err error) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module,Error", "./...")
	cmd.Dir = repo
	cmd.Env = env
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return "", "", "", fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	exports := map[string]string{}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return "", "", "", err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && (p.Module.Path == "trypo" || strings.HasSuffix(p.Module.Path, "/go-narb")) {
			pkgs = append(pkgs, p)
		}
	}
	replace := map[string]string{}
	narbDir := filepath.Join(tmp, "narb")
	narbRoot := ""
	for _, p := range pkgs {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			b, err := os.ReadFile(fn)
			if err != nil {
				return "", "", "", err
			}
			a, err := parser.ParseFile(fset, fn, b, parser.ParseComments)
			if err != nil {
				return "", "", "", err
			}
			files = append(files, a)
			names = append(names, fn)
			srcs = append(srcs, b)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		conf := types.Config{Importer: imp, Error: func(e error) {
			if note == "" {
				note = "type check: " + e.Error()
			}
		}, FakeImportC: true}
		conf.Check(p.ImportPath, fset, files, info)
		var resets map[*ast.File]string
		if p.Module.Path == "trypo" && p.ImportPath != "trypo/cfg" {
			resets = globals(fset, files, srcs, info)
		}
		for i, a := range files {
			b := rewrite(fset, a, srcs[i], info, resets[a])
			if p.Module.Path == "trypo" {
				dst := filepath.Join(tmp, "inst", strings.ReplaceAll(strings.TrimPrefix(names[i], repo+"/"), "/", "__"))
				os.MkdirAll(filepath.Dir(dst), 0o755)
				if err := os.WriteFile(dst, b, 0o644); err != nil {
					return "", "", "", err
				}
				replace[names[i]] = dst
				// A program is also offered as a package with a function Main.
				if a.Name.Name == "main" {
					vd := filepath.Join(repo, "cmd", "v"+filepath.Base(p.Dir))
					pf := dst + ".prog.go"
					if err := os.WriteFile(pf, program(fset, a, b, "v"+filepath.Base(p.Dir)), 0o644); err != nil {
						return "", "", "", err
					}
					replace[filepath.Join(vd, filepath.Base(names[i]))] = pf
				}
			} else {
				rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, p.Module.Path), "/")
				narbRoot = p.Module.Path
				dst := filepath.Join(narbDir, rel, filepath.Base(names[i]))
				os.MkdirAll(filepath.Dir(dst), 0o755)
				if err := os.WriteFile(dst, b, 0o644); err != nil {
					return "", "", "", err
				}
			}
		}
	}
	mod, err := os.ReadFile(filepath.Join(harness, "go.mod"))
	if err != nil {
		return "", "", "", err
	}
	ms := strings.Replace(string(mod), "replace trypo => /repo", "replace trypo => "+repo, 1)
	if narbRoot != "" {
		os.WriteFile(filepath.Join(narbDir, "go.mod"), []byte("module "+narbRoot+"\n\ngo 1.16\n"), 0o644)
		ms += "\nreplace " + narbRoot + " => " + narbDir + "\n"
	}
	modfile = filepath.Join(tmp, "go.mod")
	if err := os.WriteFile(modfile, []byte(ms), 0o644); err != nil {
		return "", "", "", err
	}
	sum, _ := os.ReadFile(filepath.Join(harness, "go.sum"))
	os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644)
	ob, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	overlay = filepath.Join(tmp, "overlay.json")
	return overlay, modfile, note, os.WriteFile(overlay, ob, 0o644)
}

// program renames package main and its function main in rewritten text.
func program(_ *token.FileSet, _ *ast.File, src []byte, name string) []byte {
	fs := token.NewFileSet()
	a, err := parser.ParseFile(fs, "", src, 0)
	if err != nil {
		return src
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var eds []edit
	eds = append(eds, edit{off(a.Name.Pos()), off(a.Name.End()), name})
	for _, d := range a.Decls {
		if f, ok := d.(*ast.FuncDecl); ok && f.Recv == nil && f.Name.Name == "main" {
			eds = append(eds, edit{off(f.Name.Pos()), off(f.Name.End()), "Main"})
		}
	}
	var b bytes.Buffer
	last := 0
	for _, e := range eds {
		b.Write(src[last:e.from])
		b.WriteString(e.text)
		last = e.to
	}
	b.Write(src[last:])
	return b.Bytes()
}

// globals writes code that gives the package-level variables their initial
// values again, so that no execution sees what an earlier one left behind.
// Function values are taken to be constant.
func globals(fset *token.FileSet, files []*ast.File, srcs [][]byte, info *types.Info) map[*ast.File]string {
	in := func(p token.Pos) int {
		for i, a := range files {
			if a.FileStart <= p && p <= a.FileEnd {
				return i
			}
		}
		return -1
	}
	text := func(n ast.Node) string {
		return string(srcs[in(n.Pos())][fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	r := map[*ast.File]string{}
	var calls []string
	emit := func(at token.Pos, stmt string) {
		n := fmt.Sprintf("vrtReset%d", len(calls))
		r[files[in(at)]] += fmt.Sprintf("\nfunc %s() { %s }\n", n, stmt)
		calls = append(calls, n)
	}
	for _, a := range files {
		for _, d := range a.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				if len(v.Values) > 0 {
					continue
				}
				for _, id := range v.Names {
					if o := info.Defs[id]; o == nil || id.Name == "_" || isFunc(o.Type()) {
						continue
					}
					emit(id.Pos(), fmt.Sprintf("%s = *new(%s)", id.Name, text(v.Type)))
				}
			}
		}
	}
	for _, x := range info.InitOrder {
		var lhs []string
		keep := true
		for _, v := range x.Lhs {
			lhs = append(lhs, v.Name())
			keep = keep && !isFunc(v.Type())
		}
		ast.Inspect(x.Rhs, func(n ast.Node) bool {
			if f, ok := n.(*ast.FuncLit); ok {
				// The text is the one before the rewriting.
				ast.Inspect(f, func(n ast.Node) bool {
					if _, ok := n.(*ast.RangeStmt); ok {
						keep = false
					}
					return true
				})
			}
			return true
		})
		if !keep || strings.Trim(strings.Join(lhs, ""), "_") == "" || in(x.Rhs.Pos()) < 0 {
			continue
		}
		emit(x.Rhs.Pos(), strings.Join(lhs, ", ")+" = "+text(x.Rhs))
	}
	if len(calls) > 0 {
		f := files[len(files)-1]
		r[f] += "\nfunc init() { vrtRT.OnReset(func() { " + strings.Join(calls, "(); ") + "() }) }\n"
	}
	return r
}

func isFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func rewrite(fset *token.FileSet, a *ast.File, src []byte, info *types.Info, extra string) []byte {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var eds []edit
	for _, im := range a.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, ok := shims[path]
		if !ok {
			continue
		}
		name := ""
		if im.Name == nil {
			name = filepath.Base(path) + " "
		}
		eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), name + strconv.Quote(to)})
	}
	tagged := false
	for _, cg := range a.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") && c.Pos() < a.Package {
				tagged = true
			}
		}
	}
	maps := 0
	if !tagged {
		ast.Inspect(a, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok || r.Key == nil {
				return true
			}
			tv, ok := info.Types[r.X]
			if !ok || tv.Type == nil {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok {
				return true
			}
			txt := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
			blank := func(e ast.Expr) bool {
				id, ok := e.(*ast.Ident)
				return e == nil || (ok && id.Name == "_")
			}
			k, v := "_", "_"
			kp, vp := "nil", "nil"
			if !blank(r.Key) {
				k = txt(r.Key)
				kp = "&" + k
			}
			if r.Value != nil && !blank(r.Value) {
				v = txt(r.Value)
				vp = "&" + v
			}
			maps++
			it := fmt.Sprintf("vrtIt%d", maps)
			var h string
			// The operand itself may contain no map range, but keep its text.
			if r.Tok == token.DEFINE {
				h = fmt.Sprintf("for %s, %s, %s := vrtRT.NewIter(%s); %s.Next(%s, %s); ", it, k, v, txt(r.X), it, kp, vp)
			} else {
				h = fmt.Sprintf("for %s := vrtRT.NewIter1(%s); %s.Next(%s, %s); ", it, txt(r.X), it, kp, vp)
			}
			eds = append(eds, edit{off(r.For), off(r.Body.Lbrace), h})
			return true
		})
	}
	hooks := strings.Contains(extra, "vrtRT.")
	if maps > 0 || hooks {
		p := off(a.Name.End())
		eds = append(eds, edit{p, p, "; import vrtRT \"vharness/vrt\""})
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
	var b bytes.Buffer
	if maps > 0 {
		b.WriteString("//go:build go1.21\n\n")
	}
	last := 0
	for _, e := range eds {
		if e.from < last {
			continue // nested operand: keep the outer edit
		}
		b.Write(src[last:e.from])
		b.WriteString(e.text)
		last = e.to
	}
	b.Write(src[last:])
	b.WriteString(extra)
	return b.Bytes()
}
