// Command instrument writes, for every non-test Go file of the repository under
// test, a copy in which the simulator owns scheduling, time, randomness and
// synchronisation, plus a build overlay that substitutes the copies:
//
//   - vsim.Y(site) before every statement and at the head of every function and
//     loop body (a scheduling point),
//   - time.Now/Since/Until/Sleep -> simulated clock,
//   - math/rand, math/rand/v2 package functions and crypto/rand -> simulated PRNG,
//   - package sync -> simulated sync (blocking is visible to the scheduler),
//   - go statements -> simulated tasks,
//   - range over maps -> simulator-chosen order,
//   - a reset function per package that gives every package-level variable its
//     initial value again (in Go's initialisation order) and re-runs init
//     functions, so that a run can start from the state of a fresh process.
//
// The rewriting is textual at AST offsets, so line numbers are unchanged and the
// result depends on what the code says, not on how it is laid out.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

type fileInfo struct {
	path string
	src  []byte
	f    *ast.File
	eds  []edit
}

type pkgInfo struct {
	dir, imp string
	files    []*fileInfo
	tpkg     *types.Package
	info     *types.Info
}

var (
	fset  = token.NewFileSet()
	sites []string
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func (fi *fileInfo) off(p token.Pos) int { return fset.Position(p).Offset }
func (fi *fileInfo) ins(p token.Pos, s string) {
	o := fi.off(p)
	fi.eds = append(fi.eds, edit{o, o, s, len(fi.eds)})
}
func (fi *fileInfo) rep(a, b token.Pos, s string) {
	fi.eds = append(fi.eds, edit{fi.off(a), fi.off(b), s, len(fi.eds)})
}
func (fi *fileInfo) text(n ast.Node) string { return string(fi.src[fi.off(n.Pos()):fi.off(n.End())]) }

func site(fi *fileInfo, p token.Pos) string {
	ps := fset.Position(p)
	sites = append(sites, fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line))
	return strconv.Itoa(len(sites))
}

var randFuncs = map[string]bool{}

func init() {
	for _, s := range strings.Fields("Int Intn Int31 Int31n Int63 Int63n Uint32 Uint64 Float32 Float64 ExpFloat64 NormFloat64 Perm Shuffle Read Seed IntN Int32 Int32N Int64 Int64N Uint32N Uint64N UintN Uint") {
		randFuncs[s] = true
	}
}

type stubImporter struct{ local map[string]*types.Package }

func (s stubImporter) Import(path string) (*types.Package, error) {
	if p, ok := s.local[path]; ok && p != nil {
		return p, nil
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

func main() {
	repo := flag.String("repo", "/repo", "repository root")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	os.RemoveAll(*out)
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	mod := "github.com/hzw456/go-geo"
	if b, err := os.ReadFile(filepath.Join(*repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "module ") {
				mod = strings.TrimSpace(strings.TrimPrefix(l, "module "))
				break
			}
		}
	}
	var pkgs []*pkgInfo
	ctx := build.Default
	err := filepath.Walk(*repo, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if st.IsDir() {
			b := st.Name()
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			if p != *repo {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		dir := filepath.Dir(p)
		if ok, err := ctx.MatchFile(dir, st.Name()); err != nil || !ok {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				return nil
			}
		}
		var pi *pkgInfo
		for _, q := range pkgs {
			if q.dir == dir {
				pi = q
			}
		}
		if pi == nil {
			rel, _ := filepath.Rel(*repo, dir)
			imp := mod
			if rel != "." {
				imp = mod + "/" + filepath.ToSlash(rel)
			}
			pi = &pkgInfo{dir: dir, imp: imp}
			pkgs = append(pkgs, pi)
		}
		pi.files = append(pi.files, &fileInfo{path: p, src: src, f: f})
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	// Type-check tolerantly (imports outside the repository are stubs): only used
	// to recognise ranges over maps. Two rounds so that order does not matter.
	local := map[string]*types.Package{}
	for round := 0; round < 2; round++ {
		for _, pi := range pkgs {
			var fs []*ast.File
			for _, fi := range pi.files {
				fs = append(fs, fi.f)
			}
			info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
			cfg := types.Config{Error: func(error) {}, Importer: stubImporter{local}, FakeImportC: true}
			func() {
				defer func() { recover() }()
				tp, _ := cfg.Check(pi.imp, fset, fs, info)
				local[pi.imp] = tp
				pi.tpkg, pi.info = tp, info
			}()
		}
	}
	overlay := map[string]string{}
	n := 0
	for _, pi := range pkgs {
		for _, fi := range pi.files {
			instrument(pi, fi)
		}
		resets(pi)
		for _, fi := range pi.files {
			n++
			dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, filepath.Base(fi.path)))
			if err := os.WriteFile(dst, apply(fi), 0o644); err != nil {
				die("%v", err)
			}
			overlay[fi.path] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	lang := ""
	if generic {
		lang = "go1.21"
	}
	if err := os.WriteFile(filepath.Join(*out, "lang"), []byte(lang), 0o644); err != nil {
		die("%v", err)
	}
	b, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrument: %d packages, %d files, %d scheduling points\n", len(pkgs), n, len(sites))
}

func apply(fi *fileInfo) []byte {
	sort.SliceStable(fi.eds, func(i, j int) bool {
		if fi.eds[i].off != fi.eds[j].off {
			return fi.eds[i].off < fi.eds[j].off
		}
		return fi.eds[i].seq < fi.eds[j].seq
	})
	var sb strings.Builder
	pos := 0
	for _, e := range fi.eds {
		if e.off < pos {
			die("%s: overlapping edits at offset %d", fi.path, e.off)
		}
		sb.Write(fi.src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(fi.src[pos:])
	return []byte(sb.String())
}

// instText is the instrumented text of an expression.
func (fi *fileInfo) instText(x ast.Expr) string {
	a, b := fi.off(x.Pos()), fi.off(x.End())
	sub := &fileInfo{path: fi.path, src: fi.src[:b]}
	for _, e := range fi.eds {
		if e.off >= a && e.end <= b {
			sub.eds = append(sub.eds, e)
		}
	}
	out := apply(sub)
	return string(out[a:])
}

// resets adds the reset function of a package.
func resets(pi *pkgInfo) {
	type unit struct {
		order int
		name  string
	}
	var units []unit
	var inits []string
	rank := map[types.Object]int{}
	if pi.info != nil {
		for i, in := range pi.info.InitOrder {
			for _, v := range in.Lhs {
				rank[v] = i
			}
		}
	}
	k := 0
	for _, fi := range pi.files {
		tail := ""
		for _, d := range fi.f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					k++
					nm := fmt.Sprintf("__vsimI%d", k)
					fi.rep(d.Name.Pos(), d.Name.End(), nm)
					tail += fmt.Sprintf("\nfunc init() { %s() }\n", nm)
					inits = append(inits, nm)
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				embed := func(c *ast.CommentGroup) bool {
					if c == nil {
						return false
					}
					for _, l := range c.List {
						if strings.HasPrefix(l.Text, "//go:") {
							return true
						}
					}
					return false
				}
				for _, s := range d.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok || embed(d.Doc) || embed(vs.Doc) {
						continue
					}
					add := func(ids []*ast.Ident, body string) {
						k++
						nm := fmt.Sprintf("__vsimR%d", k)
						o := -1 // without initialiser: first
						if len(vs.Values) > 0 {
							o = 1 << 20
							for _, id := range ids {
								if r, ok := rank[pi.info.Defs[id]]; ok && pi.info != nil {
									o = r
								}
							}
						}
						tail += fmt.Sprintf("\nfunc %s() { %s }\n", nm, body)
						units = append(units, unit{o, nm})
					}
					blank := true
					for _, id := range vs.Names {
						if id.Name != "_" {
							blank = false
						}
					}
					switch {
					case blank:
					case len(vs.Values) == 0:
						for _, id := range vs.Names {
							if id.Name != "_" {
								add([]*ast.Ident{id}, "var __z "+fi.text(vs.Type)+"; "+id.Name+" = __z")
							}
						}
					case len(vs.Values) == len(vs.Names):
						for i, id := range vs.Names {
							if id.Name != "_" {
								add([]*ast.Ident{id}, id.Name+" = "+fi.instText(vs.Values[i]))
							}
						}
					default:
						var l []string
						for _, id := range vs.Names {
							l = append(l, id.Name)
						}
						add(vs.Names, strings.Join(l, ", ")+" = "+fi.instText(vs.Values[0]))
					}
				}
			}
		}
		if tail != "" {
			fi.eds = append(fi.eds, edit{len(fi.src), len(fi.src), tail, len(fi.eds)})
		}
	}
	sort.SliceStable(units, func(i, j int) bool { return units[i].order < units[j].order })
	if len(units)+len(inits) == 0 || len(pi.files) == 0 {
		return
	}
	body := "\nfunc init() { __vsim.OnFresh(func() { "
	for _, u := range units {
		body += u.name + "(); "
	}
	for _, n := range inits {
		body += n + "(); "
	}
	fi := pi.files[0]
	fi.eds = append(fi.eds, edit{len(fi.src), len(fi.src), body + "}) }\n", len(fi.eds)})
}

func instrument(pi *pkgInfo, fi *fileInfo) {
	f := fi.f
	fi.ins(f.Name.End(), `; import __vsim "geosim/simrt"`)
	tail := "\nvar _ = __vsim.Y\n"

	names := map[string]string{} // local import name -> path
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(path)
		if path == "math/rand/v2" {
			name = "rand"
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		if name == "_" || name == "." {
			continue
		}
		names[name] = path
		switch path {
		case "sync":
			if im.Name == nil {
				fi.rep(im.Path.Pos(), im.Path.End(), `sync "geosim/simrt/simsync"`)
			} else {
				fi.rep(im.Path.Pos(), im.Path.End(), `"geosim/simrt/simsync"`)
			}
		case "time":
			tail += "var _ = " + name + ".Duration(0)\n"
		case "runtime":
			tail += "var _ = " + name + ".NumCPU\n"
		case "math/rand", "math/rand/v2":
			tail += "var _ " + name + ".Source\n"
		case "crypto/rand":
			tail += "var _ = " + name + ".Reader\n"
		}
	}
	goStmts := map[ast.Node]bool{}
	nk := 0
	comms, two, noRecv := map[ast.Node]bool{}, map[ast.Node]bool{}, map[ast.Node]bool{}
	selLabel := map[ast.Node]string{}
	yield := func(p token.Pos) { fi.ins(p, "__vsim.Y("+site(fi, p)+"); ") }
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			yield(s.Pos())
		}
	}
	head := func(b *ast.BlockStmt) {
		if b != nil && len(b.List) == 0 {
			fi.ins(b.Lbrace+1, " __vsim.Y("+site(fi, b.Lbrace)+"); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			head(n.Body)
		case *ast.FuncLit:
			head(n.Body)
		case *ast.ForStmt:
			head(n.Body)
		case *ast.RangeStmt:
			if pi.info != nil && rangeMap(pi, fi, names, n, &nk) {
				break
			}
			if rangeChan(pi, fi, n) {
				break
			}
			head(n.Body)
		case *ast.SwitchStmt:
			for _, c := range n.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range n.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.LabeledStmt:
			if _, ok := n.Stmt.(*ast.SelectStmt); ok {
				selLabel[n.Stmt] = n.Label.Name
			}
		case *ast.SelectStmt:
			hasDefault := false
			for _, c := range n.Body.List {
				c := c.(*ast.CommClause)
				if c.Comm == nil {
					hasDefault = true
				} else {
					comms[c.Comm] = true
					ev := " __vsim.ChanEvent(); "
					if x := commChan(c.Comm); x != nil {
						ev = " __vsim.ChanGot(" + fi.text(x) + "); "
					}
					fi.ins(c.Colon+1, ev)
				}
				list(c.Body)
			}
			if !hasDefault && len(n.Body.List) > 0 {
				lb := selLabel[n]
				if lb == "" {
					nk++
					lb = fmt.Sprintf("__sel%d", nk)
					fi.ins(n.Pos(), lb+": ")
				}
				fi.ins(n.Body.Rbrace, "; default: __vsim.ChanBlock(); goto "+lb+"\n")
			}
		case *ast.SendStmt:
			if !comms[n] {
				generic = true
				fi.ins(n.Pos(), "__vsim.SendTo(")
				fi.rep(n.Chan.End(), n.Value.Pos(), ")(")
				fi.ins(n.Value.End(), ")")
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				two[ast.Unparen(n.Rhs[0])] = true
			}
			if comms[n] {
				noRecv[ast.Unparen(n.Rhs[0])] = true
			}
		case *ast.ExprStmt:
			if comms[n] {
				noRecv[ast.Unparen(n.X)] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				two[ast.Unparen(n.Values[0])] = true
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !noRecv[n] {
				generic = true
				f := "__vsim.Recv("
				if two[n] {
					f = "__vsim.Recv2("
				}
				fi.rep(n.Pos(), n.X.Pos(), f)
				fi.ins(n.X.End(), ")")
			}
		case *ast.CallExpr:
			id, ok := n.Fun.(*ast.Ident)
			if !ok || id.Obj != nil {
				break
			}
			if id.Name == "close" && len(n.Args) == 1 {
				generic = true
				fi.rep(id.Pos(), id.End(), "__vsim.CloseCh")
			}
			if id.Name == "make" && len(n.Args) > 0 && isChan(pi, n.Args[0]) {
				generic = true
				if len(n.Args) == 1 {
					fi.ins(n.Pos(), "__vsim.Unbuf(")
					fi.ins(n.Rparen, ", 1")
				} else {
					fi.ins(n.Pos(), "__vsim.Buf(")
					fi.ins(n.Args[1].Pos(), "__vsim.ChanCap(int(")
					fi.ins(n.Args[1].End(), "))")
				}
				fi.ins(n.Rparen+1, ")")
			}
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
		case *ast.GoStmt:
			goStmts[n] = true
			c := n.Call
			// go F(a...)  ->  { f, a0.. := F, a..; Go(func(){ f(a0..) }) }
			if _, lit := c.Fun.(*ast.FuncLit); lit && len(c.Args) == 0 {
				fi.rep(n.Pos(), c.Pos(), "__vsim.Go(func() { ")
				fi.ins(c.End(), " })")
				break
			}
			if len(c.Args) == 0 {
				fi.rep(n.Pos(), c.Fun.Pos(), "{ __gf := ")
				fi.rep(c.Lparen, c.Rparen+1, "; __vsim.Go(func() { __gf() }) }")
				break
			}
			fi.rep(n.Pos(), c.Fun.Pos(), "{ __gf := ")
			fi.rep(c.Lparen, c.Lparen+1, "; ")
			var ns, vs []string
			tok := " = "
			for i, a := range c.Args {
				if constArg(pi, a) { // keeps its type by being passed as it is
					ns, vs = append(ns, fi.text(a)), append(vs, "_")
					continue
				}
				v := fmt.Sprintf("__ga%d", i)
				ns, vs, tok = append(ns, v), append(vs, v), " := "
			}
			call := strings.Join(ns, ", ")
			fi.ins(n.Call.Lparen+1, strings.Join(vs, ", ")+tok)
			for i, a := range c.Args {
				if vs[i] == "_" {
					fi.rep(a.Pos(), a.End(), "0")
				}
			}
			if c.Ellipsis.IsValid() {
				call += "..."
			}
			last := c.Args[len(c.Args)-1]
			fi.rep(last.End(), c.Rparen+1, "; __vsim.Go(func() { __gf("+call+") }) }")
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				break
			}
			path, ok := names[id.Name]
			if !ok {
				break
			}
			switch path {
			case "runtime":
				if n.Sel.Name == "Gosched" {
					fi.rep(n.Pos(), n.End(), "__vsim.Gosched")
				}
			case "time":
				switch n.Sel.Name {
				case "Now", "Since", "Until", "Sleep", "After":
					fi.rep(n.Pos(), n.End(), "__vsim."+n.Sel.Name)
				}
			case "math/rand":
				if randFuncs[n.Sel.Name] {
					fi.rep(id.Pos(), id.End(), "__vsim.Rand()")
				}
			case "math/rand/v2":
				if randFuncs[n.Sel.Name] {
					fi.rep(id.Pos(), id.End(), "__vsim.RandV2()")
				}
			case "crypto/rand":
				switch n.Sel.Name {
				case "Read":
					fi.rep(n.Pos(), n.End(), "__vsim.CryptoRead")
				case "Reader":
					fi.rep(n.Pos(), n.End(), "__vsim.CryptoReader")
				}
			}
		}
		return true
	})
	fi.eds = append(fi.eds, edit{len(fi.src), len(fi.src), tail, len(fi.eds)})
}

// generic is set when the rewritten code uses generic helpers.
var generic bool

// constArg reports whether a is a constant or nil.
func constArg(pi *pkgInfo, a ast.Expr) bool {
	switch a := ast.Unparen(a).(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		if a.Obj == nil && (a.Name == "nil" || a.Name == "true" || a.Name == "false") {
			return true
		}
	}
	if pi.info == nil {
		return false
	}
	tv, ok := pi.info.Types[a]
	return ok && (tv.Value != nil || tv.IsNil())
}

// commChan is the channel of a receiving select case, if it can be named again.
func commChan(s ast.Stmt) ast.Expr {
	var x ast.Expr
	switch s := s.(type) {
	case *ast.ExprStmt:
		x = s.X
	case *ast.AssignStmt:
		x = s.Rhs[0]
	default:
		return nil
	}
	u, ok := ast.Unparen(x).(*ast.UnaryExpr)
	if !ok {
		return nil
	}
	for x := u.X; ; {
		switch e := x.(type) {
		case *ast.Ident:
			return u.X
		case *ast.SelectorExpr:
			x = e.X
			continue
		}
		return nil
	}
}

func isChan(pi *pkgInfo, x ast.Expr) bool {
	if _, ok := ast.Unparen(x).(*ast.ChanType); ok {
		return true
	}
	if pi.info == nil {
		return false
	}
	tv, ok := pi.info.Types[x]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// rangeChan rewrites a range over a channel.
func rangeChan(pi *pkgInfo, fi *fileInfo, n *ast.RangeStmt) bool {
	if pi.info == nil || n.Value != nil || !isChan(pi, n.X) {
		return false
	}
	generic = true
	k, decl := "_", ":="
	if n.Key != nil {
		k = fi.text(n.Key)
		if n.Tok == token.ASSIGN {
			decl = "="
		}
	}
	recv := k + ", __ok := __vsim.Recv2(__ch); if !__ok { break }; "
	if decl == "=" {
		recv = "var __ok bool; " + k + ", __ok = __vsim.Recv2(__ch); if !__ok { break }; "
	}
	// keep the expression's own edits: only what stands around it is replaced
	fi.rep(n.For, n.X.Pos(), "for __ch := ")
	fi.ins(n.X.End(), "; ; ")
	fi.ins(n.Body.Lbrace+1, " __vsim.Y("+site(fi, n.For)+"); "+recv)
	return true
}

// rangeMap rewrites a range over a map held in a plain variable or selector so
// that the simulator chooses the order. It reports whether it did.
func rangeMap(pi *pkgInfo, fi *fileInfo, names map[string]string, n *ast.RangeStmt, nk *int) bool {
	tv, ok := pi.info.Types[n.X]
	if !ok || tv.Type == nil {
		return false
	}
	m, ok := tv.Type.Underlying().(*types.Map)
	if !ok {
		return false
	}
	for x := n.X; ; {
		switch e := x.(type) {
		case *ast.Ident:
		case *ast.SelectorExpr:
			x = e.X
			continue
		default:
			return false
		}
		break
	}
	bad := false
	kt := types.TypeString(m.Key(), func(p *types.Package) string {
		if p == pi.tpkg {
			return ""
		}
		for nm, path := range names {
			if path == p.Path() {
				return nm
			}
		}
		bad = true
		return p.Name()
	})
	if bad || strings.Contains(kt, "invalid") {
		return false
	}
	*nk++
	kv := fmt.Sprintf("__mk%d", *nk)
	mt := fi.text(n.X)
	key := kv + ".(" + kt + ")"
	if kt == "interface{}" || kt == "any" {
		key = kv
	}
	body := fmt.Sprintf(" if _, __ok := %s[%s]; !__ok { continue }; ", mt, key)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	tok := " " + n.Tok.String() + " "
	if !blank(n.Key) {
		body += fi.text(n.Key) + tok + key + "; "
	}
	if !blank(n.Value) {
		body += fi.text(n.Value) + tok + mt + "[" + key + "]; "
	}
	fi.rep(n.For, n.Body.Lbrace+1, fmt.Sprintf("for _, %s := range __vsim.Keys(%s) { __vsim.Y(%s); %s", kv, mt, site(fi, n.For), body))
	return true
}
