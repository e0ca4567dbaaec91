// Command instrument writes copies of a module's Go files in which
// synchronization, goroutines, channels, timers and map iteration go through
// package zmc, and an overlay file that makes the go command use them.
//
// The rewriting is textual, at the positions given by the type-checked syntax
// tree, so that lines and comments stay where they are.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct {
		Path      string
		Main      bool
		GoVersion string
	}
}

type edit struct {
	pos, end int // replace [pos,end)
	text     string
	seq      int
}

const modPath = "github.com/peterbourgon/trc"

var (
	shimSync   = set("Mutex RWMutex WaitGroup Once OnceFunc OnceValue OnceValues Cond NewCond Pool Map Locker")
	shimTime   = set("Now Since Until Sleep Timer Ticker NewTimer AfterFunc After NewTicker Tick")
	shimSilent = set("Int32 Int64 Uint32 Uint64")
)

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

func main() {
	repo := flag.String("repo", "/repo", "module directory")
	out := flag.String("out", "", "output directory")
	zmc := flag.String("zmc", "", "zmc source directory")
	extra := flag.String("extra", "", "comma separated import paths of dependencies to instrument too")
	skip := flag.String("skip", "", "comma separated import paths not to instrument")
	flag.Parse()
	if err := run(*repo, *out, *zmc, *extra, *skip); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

func run(repo, out, zmc, extra, skip string) error {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	exports := map[string]string{}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, &p)
	}

	replace := map[string]string{}
	err = filepath.Walk(zmc, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(zmc, path)
		abs, _ := filepath.Abs(path)
		replace[filepath.Join(repo, "zmc", rel)] = abs
		return nil
	})
	if err != nil {
		return err
	}

	extras, skips := set(strings.ReplaceAll(extra, ",", " ")), set(strings.ReplaceAll(skip, ",", " "))
	for _, p := range pkgs {
		mine := p.Module != nil && p.Module.Main && p.Name != "main"
		if p.Standard || skips[p.ImportPath] || !(mine || extras[p.ImportPath]) {
			continue
		}
		if err := instrument(p, exports, out, replace); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}

	ob, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	return writeIfChanged(filepath.Join(out, "overlay.json"), ob)
}

func writeIfChanged(path string, b []byte) error {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	file  *ast.File
	src   []byte
	base  int
	edits []edit
	used  map[string]bool // shim packages
	hits  map[*types.PkgName]int
	n     int
	quiet bool // debug counters only
}

func instrument(p *listPkg, exports map[string]string, out string, replace map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
		srcs = append(srcs, src)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Implicits:  map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %q", path)
			}
			return os.Open(e)
		}),
		Error: func(err error) {},
	}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return fmt.Errorf("type check: %w", err)
	}
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, file: f, src: srcs[i], base: fset.File(f.Pos()).Base(), used: map[string]bool{}, hits: map[*types.PkgName]int{}}
		r.quiet = strings.HasSuffix(p.ImportPath, "/internal/trcdebug")
		res := r.rewrite()
		if res == nil {
			continue
		}
		if _, err := parser.ParseFile(token.NewFileSet(), p.GoFiles[i], res, 0); err != nil {
			fmt.Fprintf(os.Stderr, "instrument: %s: %v (left as is)\n", p.GoFiles[i], err)
			continue
		}
		path := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_"), p.GoFiles[i])
		if err := writeIfChanged(path, res); err != nil {
			return err
		}
		replace[filepath.Join(p.Dir, p.GoFiles[i])] = path
	}
	return nil
}

func (r *rewriter) off(p token.Pos) int { return int(p) - r.base }

func (r *rewriter) replace(pos, end token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(pos), r.off(end), text, len(r.edits)})
}

func (r *rewriter) insert(pos token.Pos, text string) { r.replace(pos, pos, text) }

func (r *rewriter) zmc() string { r.used["zmc"] = true; return "zmc__" }

func (r *rewriter) uniq(s string) string { r.n++; return fmt.Sprintf("z%s%d__", s, r.n) }

func (r *rewriter) chanType(e ast.Expr) *types.Chan {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	c, _ := tv.Type.Underlying().(*types.Chan)
	return c
}

func (r *rewriter) isMap(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := r.info.Uses[id].(*types.Builtin)
	return ok && b.Name() == name
}

func (r *rewriter) rewrite() []byte {
	// Parents are needed for labels and for two-value receives.
	parent := map[ast.Node]ast.Node{}
	var stack []ast.Node
	ast.Inspect(r.file, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			parent[n] = stack[len(stack)-1]
		}
		stack = append(stack, n)
		return true
	})

	comm := map[ast.Node]bool{} // cases of selects
	ast.Inspect(r.file, func(n ast.Node) bool {
		if comm[n] {
			return false // rewritten as a whole
		}
		switch n := n.(type) {
		case *ast.SelectorExpr:
			r.selector(n)
		case *ast.GoStmt:
			if !r.quiet {
				r.goStmt(n)
			}
		case *ast.SelectStmt:
			if !r.quiet {
				r.selectStmt(n, parent, comm)
			}
		case *ast.SendStmt:
			if !r.quiet {
				r.insert(n.Pos(), r.zmc()+".SendTo(")
				r.replace(n.Arrow, n.Arrow+2, ")(")
				r.insert(n.End(), ")")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				fn := ".Recv("
				if twoValued(n, parent) {
					fn = ".Recv2("
				}
				r.replace(n.OpPos, n.OpPos+2, r.zmc()+fn)
				r.insert(n.End(), ")")
			}
		case *ast.CallExpr:
			if r.isBuiltin(n.Fun, "close") {
				if _, isGo := parent[n].(*ast.GoStmt); !isGo {
					r.replace(n.Fun.Pos(), n.Fun.End(), r.zmc()+".Close")
				}
			}
			if r.isBuiltin(n.Fun, "len") && len(n.Args) == 1 && r.chanType(n.Args[0]) != nil {
				r.replace(n.Fun.Pos(), n.Fun.End(), r.zmc()+".Len")
			}
			if r.isBuiltin(n.Fun, "make") && r.chanType(n) != nil {
				if c := r.chanType(n); c.Dir() == types.SendRecv {
					r.insert(n.Pos(), r.zmc()+".NameChan(")
					r.insert(n.End(), ")")
				}
			}
		case *ast.RangeStmt:
			if !r.quiet {
				r.rangeStmt(n)
			}
		}
		return true
	})

	if len(r.edits) == 0 {
		return nil
	}
	r.imports()

	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return a.seq < b.seq
	})
	var buf bytes.Buffer
	last := 0
	for _, e := range r.edits {
		if e.pos < last {
			fmt.Fprintf(os.Stderr, "instrument: overlapping edits in %s\n", r.file.Name)
			return nil
		}
		buf.Write(r.src[last:e.pos])
		buf.WriteString(e.text)
		last = e.end
	}
	buf.Write(r.src[last:])
	return buf.Bytes()
}

func twoValued(n ast.Node, parent map[ast.Node]ast.Node) bool {
	child := n
	p := parent[n]
	for {
		if pe, ok := p.(*ast.ParenExpr); ok {
			child, p = pe, parent[pe]
			continue
		}
		break
	}
	switch p := p.(type) {
	case *ast.AssignStmt:
		return len(p.Lhs) == 2 && len(p.Rhs) == 1 && p.Rhs[0] == child
	case *ast.ValueSpec:
		return len(p.Names) == 2 && len(p.Values) == 1 && p.Values[0] == child
	}
	return false
}

func (r *rewriter) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	name := n.Sel.Name
	shim := ""
	switch pn.Imported().Path() {
	case "sync":
		if shimSync[name] && !r.quiet {
			shim = "zsync"
		}
	case "sync/atomic":
		shim = "zatomic"
		if r.quiet {
			shim = "zsilent"
			if !shimSilent[name] {
				return
			}
		}
	case "time":
		if shimTime[name] && !r.quiet {
			shim = "ztime"
		}
	case "context":
		if name == "AfterFunc" {
			r.replace(id.Pos(), n.End(), r.zmc()+".AfterFunc")
			r.hits[pn]++
		}
		return
	case "runtime":
		if name == "Gosched" {
			r.replace(id.Pos(), n.End(), r.zmc()+".Yield")
			r.hits[pn]++
		}
		return
	}
	if shim == "" {
		return
	}
	r.used[shim] = true
	r.replace(id.Pos(), id.End(), shim+"__")
	r.hits[pn]++
}

func (r *rewriter) imports() {
	uses := map[*types.PkgName]int{}
	for id, o := range r.info.Uses {
		if pn, ok := o.(*types.PkgName); ok && id.Pos() >= r.file.Pos() && id.Pos() <= r.file.End() {
			uses[pn]++
		}
	}
	for _, spec := range r.file.Imports {
		var pn *types.PkgName
		if spec.Name != nil {
			pn, _ = r.info.Defs[spec.Name].(*types.PkgName)
		} else {
			pn, _ = r.info.Implicits[spec].(*types.PkgName)
		}
		if pn == nil || r.hits[pn] == 0 || r.hits[pn] != uses[pn] {
			continue
		}
		if spec.Name != nil {
			r.replace(spec.Name.Pos(), spec.Name.End(), "_")
		} else {
			r.insert(spec.Path.Pos(), "_ ")
		}
	}
	var names []string
	for k := range r.used {
		names = append(names, k)
	}
	sort.Strings(names)
	text := ""
	for _, k := range names {
		path := modPath + "/zmc"
		if k != "zmc" {
			path += "/" + k
		}
		text += fmt.Sprintf("; import %s__ %q", k, path)
	}
	r.insert(r.file.Name.End(), text)
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	tok := r.uniq("tok")
	if lit, ok := n.Call.Fun.(*ast.FuncLit); ok {
		r.insert(n.Pos(), fmt.Sprintf("{ %s := %s.PreGo(); ", tok, r.zmc()))
		r.insert(lit.Body.Lbrace+1, fmt.Sprintf(" %s.Start(); defer %s.End(); ", tok, tok))
		r.insert(n.End(), " }")
		return
	}
	tv, ok := r.info.Types[n.Call.Fun]
	sig := false
	if ok && tv.IsValue() {
		_, sig = tv.Type.Underlying().(*types.Signature)
	}
	if !sig {
		// A builtin or conversion.
		r.insert(n.Pos(), fmt.Sprintf("{ %s := %s.PreGo(); ", tok, r.zmc()))
		r.insert(n.Call.Pos(), fmt.Sprintf("func() { %s.Start(); defer %s.End(); ", tok, tok))
		r.insert(n.End(), " }() }")
		return
	}
	if r.generic(n.Call.Fun) {
		r.insert(n.Pos(), fmt.Sprintf("{ %s := %s.PreGo(); ", tok, r.zmc()))
		r.insert(n.Call.Pos(), fmt.Sprintf("func() { %s.Start(); defer %s.End(); ", tok, tok))
		r.insert(n.End(), " }() }")
		return
	}
	r.insert(n.Pos(), fmt.Sprintf("{ %s := %s.PreGo(); ", tok, r.zmc()))
	r.insert(n.Call.Fun.Pos(), fmt.Sprintf("%s.WrapGo(%s, ", r.zmc(), tok))
	r.insert(n.Call.Fun.End(), ")")
	r.insert(n.End(), " }")
}

func (r *rewriter) generic(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		_, ok := r.info.Instances[e]
		return ok
	case *ast.SelectorExpr:
		_, ok := r.info.Instances[e.Sel]
		return ok
	case *ast.ParenExpr:
		return r.generic(e.X)
	}
	return false
}

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) selectStmt(n *ast.SelectStmt, parent map[ast.Node]ast.Node, comm map[ast.Node]bool) {
	label := ""
	if l, ok := parent[n].(*ast.LabeledStmt); ok {
		label = l.Label.Name + ": "
		// Remove the label here, and put it on the switch.
		r.replace(l.Label.Pos(), l.Colon+1, "")
	}
	// The head: evaluation of the channels and values, in order.
	r.insert(n.Pos(), "{ ")
	hasDefault := false
	var names []string
	var heads []string
	bodies := 0
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		comm[cc.Comm] = true
		name := r.uniq("case")
		names = append(names, name)
		idx := bodies
		bodies++
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			heads = append(heads, fmt.Sprintf("%s := %s.SendCase(%s)(%s); ", name, r.zmc(), r.sub(c.Chan), r.sub(c.Value)))
			r.replace(c.Pos(), c.End(), fmt.Sprint(idx))
			r.replaceCase(cc, "")
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			heads = append(heads, fmt.Sprintf("%s := %s.RecvCase(%s); ", name, r.zmc(), r.sub(u.X)))
			r.replace(c.Pos(), c.End(), fmt.Sprint(idx))
			r.replaceCase(cc, "")
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			heads = append(heads, fmt.Sprintf("%s := %s.RecvCase(%s); ", name, r.zmc(), r.sub(u.X)))
			rhs := name + ".Val"
			lhs := r.text(c.Lhs[0])
			if len(c.Lhs) == 2 {
				rhs += ", " + name + ".Ok"
				lhs += ", " + r.text(c.Lhs[1])
			}
			r.replace(c.Pos(), c.End(), fmt.Sprint(idx))
			tok := c.Tok.String()
			if allBlank(c.Lhs) {
				tok = "="
			}
			r.replaceCase(cc, fmt.Sprintf(" %s %s %s;", lhs, tok, rhs))
		}
	}
	r.insert(n.Pos(), strings.Join(heads, ""))
	args := append([]string{fmt.Sprint(hasDefault)}, names...)
	r.replace(n.Pos(), n.Pos()+token.Pos(len("select")), fmt.Sprintf("%sswitch %s.Select(%s)", label, r.zmc(), strings.Join(args, ", ")))
	if !hasDefault {
		sep := "; "
		if len(n.Body.List) == 0 {
			sep = " "
		}
		r.insert(n.Body.Rbrace, sep+"default: panic(\"unreachable\") ")
	}
	r.insert(n.End(), " }")
}

func allBlank(es []ast.Expr) bool {
	for _, e := range es {
		if id, ok := e.(*ast.Ident); !ok || id.Name != "_" {
			return false
		}
	}
	return true
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) replaceCase(cc *ast.CommClause, after string) {
	if after != "" {
		r.insert(cc.Colon+1, after)
	}
}

// sub is the rewritten text of an expression which is moved elsewhere.
func (r *rewriter) sub(e ast.Expr) string {
	rr := *r
	rr.edits = nil
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			rr.selector(n)
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				rr.replace(n.OpPos, n.OpPos+2, rr.zmc()+".Recv(")
				rr.insert(n.End(), ")")
			}
		case *ast.CallExpr:
			if rr.isBuiltin(n.Fun, "make") && rr.chanType(n) != nil {
				rr.insert(n.Pos(), rr.zmc()+".NameChan(")
				rr.insert(n.End(), ")")
			}
		}
		return true
	})
	sort.SliceStable(rr.edits, func(i, j int) bool { return rr.edits[i].pos < rr.edits[j].pos })
	var b strings.Builder
	last := r.off(e.Pos())
	for _, ed := range rr.edits {
		b.Write(r.src[last:ed.pos])
		b.WriteString(ed.text)
		last = ed.end
	}
	b.Write(r.src[last:r.off(e.End())])
	r.n = rr.n
	return b.String()
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) {
	key, val := "_", "_"
	if n.Key != nil {
		key = r.text(n.Key)
	}
	if n.Value != nil {
		val = r.text(n.Value)
	}
	switch {
	case r.isMap(n.X):
		it := r.uniq("it")
		lhs, rhs, tok := "", "", n.Tok.String()
		switch {
		case key == "_" && val == "_":
		case val == "_":
			lhs, rhs = key, it+".K"
		case key == "_":
			lhs, rhs = val, it+".V()"
		default:
			lhs, rhs = key+", "+val, it+".K, "+it+".V()"
		}
		set := ""
		if lhs != "" {
			set = fmt.Sprintf(" %s %s %s;", lhs, tok, rhs)
		}
		// for k, v := range m {  =>  for _, it := range zmc.Items(m) { if !it.Live() { continue }; k, v := it.K, it.V();
		start := n.Range
		if n.Key != nil {
			start = n.Key.Pos()
		}
		r.replace(start, n.Range+5, fmt.Sprintf("_, %s := range %s.Items(", it, r.zmc()))
		r.insert(n.X.End(), ")")
		r.insert(n.Body.Lbrace+1, fmt.Sprintf(" if !%s.Live() { continue };%s", it, set))
	case r.chanType(n.X) != nil:
		ch, ok := r.uniq("ch"), r.uniq("ok")
		start := n.Range
		if n.Key != nil {
			start = n.Key.Pos()
		}
		r.replace(start, n.Range+5, fmt.Sprintf("%s :=", ch))
		r.insert(n.X.End(), "; ; ")
		if n.Tok == token.ASSIGN {
			v := r.uniq("v")
			r.insert(n.Body.Lbrace+1, fmt.Sprintf(" %s, %s := %s.Recv2(%s); if !%s { break }; %s = %s;", v, ok, r.zmc(), ch, ok, key, v))
		} else {
			r.insert(n.Body.Lbrace+1, fmt.Sprintf(" %s, %s := %s.Recv2(%s); if !%s { break };", key, ok, r.zmc(), ch, ok))
		}
	}
}
