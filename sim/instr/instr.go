// Package instr makes the instrumented scratch copy of the code under test.
//
// Every Go file of the module is copied with
//   - a call of simrt.Y before every statement (simrt.T in the CSS tokenizer it
//     depends on, where only work is counted),
//   - sync, sync/atomic, maps, time and math/rand replaced by shims that the
//     simulator controls,
//   - range over a map, go statements and channel operations rewritten to go
//     through the simulator,
//   - a SimReset function per package that puts package-level variables back to
//     their initial values, so that every simulated run starts in a cold process.
//
// It judges nothing: a construct it cannot handle is an error of the check.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Site is one yield point.
type Site struct {
	File string
	Line int
}

// Out describes the instrumented copy.
type Out struct {
	RepoDir  string // instrumented module
	ParseDir string // instrumented tokenizer module, if it is used
	Module   string
	Sites    []Site
	Requires []Require
	Packages int
	Files    int
}

// Require is a dependency of the module.
type Require struct{ Path, Version string }

const parseMod = "github.com/tdewolff/parse/v2"

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	OtherFiles []string `json:"-"`
	SFiles     []string
	ImportMap  map[string]string
	Module     *struct {
		Path, Version, Dir string
		Main               bool
		GoVersion          string
	}
}

// Run instruments the module in repo into scratch.
func Run(repo, scratch string, env []string) (*Out, error) {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,CgoFiles,EmbedFiles,SFiles,ImportMap,Module", ".")
	cmd.Dir = repo
	cmd.Env = env
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list in %s: %v\n%s", repo, err, stderr.String())
	}
	var pkgs []*pkgInfo
	export := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		export[p.ImportPath] = p.Export
		pkgs = append(pkgs, p)
	}
	o := &Out{RepoDir: filepath.Join(scratch, "repo"), ParseDir: filepath.Join(scratch, "parse")}
	o.Sites = append(o.Sites, Site{})
	root := pkgs[len(pkgs)-1]
	if root.Module == nil || !root.Module.Main {
		return nil, fmt.Errorf("%s is not a main module", repo)
	}
	o.Module = root.Module.Path
	var internals []*pkgInfo
	haveParse := false
	for _, p := range pkgs {
		if p.Standard || p.Module == nil {
			continue
		}
		switch {
		case p.Module.Main:
			if len(p.CgoFiles) > 0 {
				return nil, fmt.Errorf("%s: cgo is not supported", p.ImportPath)
			}
			rel, err := filepath.Rel(p.Module.Dir, p.Dir)
			if err != nil {
				return nil, err
			}
			dst := filepath.Join(o.RepoDir, rel)
			if err := o.instrument(p, dst, export, false, internals, p == root, p.Module.Dir); err != nil {
				return nil, err
			}
			internals = append(internals, p)
		case p.Module.Path == parseMod:
			haveParse = true
			rel, err := filepath.Rel(p.Module.Dir, p.Dir)
			if err != nil {
				return nil, err
			}
			if err := o.instrument(p, filepath.Join(o.ParseDir, rel), export, true, nil, false, p.Module.Dir); err != nil {
				return nil, err
			}
			if err := copyFile(filepath.Join(p.Module.Dir, "go.mod"), filepath.Join(o.ParseDir, "go.mod")); err != nil {
				return nil, err
			}
		}
	}
	if !haveParse {
		o.ParseDir = ""
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		if err := copyFile(filepath.Join(repo, f), filepath.Join(o.RepoDir, f)); err != nil && !os.IsNotExist(err) {
			return nil, err
		}
	}
	cmd = exec.Command("go", "mod", "edit", "-json")
	cmd.Dir = repo
	cmd.Env = env
	b, err = cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go mod edit: %v", err)
	}
	var mod struct{ Require []Require }
	if err := json.Unmarshal(b, &mod); err != nil {
		return nil, err
	}
	o.Requires = mod.Require
	return o, nil
}

func copyFile(from, to string) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
		return err
	}
	return os.WriteFile(to, b, 0o644)
}

type edit struct {
	at, end int
	text    string
	seq     int
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  strings.Builder
}

type inst struct {
	o        *Out
	p        *pkgInfo
	fset     *token.FileSet
	info     *types.Info
	tick     bool
	f        *file
	modDir   string
	uniq     int
	err      error
	needRT   bool
	embedded map[types.Object]bool
}

var shims = map[string]string{
	"sync":         "verif.local/sim/simsync",
	"sync/atomic":  "verif.local/sim/simatomic",
	"maps":         "verif.local/sim/simmaps",
	"time":         "verif.local/sim/simtime",
	"math/rand":    "verif.local/sim/simrand",
	"math/rand/v2": "verif.local/sim/simrand2",
	"hash/maphash": "verif.local/sim/simmaphash",
}

func (o *Out) instrument(p *pkgInfo, dst string, export map[string]string, tick bool, internals []*pkgInfo, isRoot bool, modDir string) error {
	fset := token.NewFileSet()
	var files []*file
	var asts []*ast.File
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, &file{name: name, src: src, ast: a})
		asts = append(asts, a)
	}
	for _, name := range append(append([]string{}, p.EmbedFiles...), p.SFiles...) {
		if err := copyFile(filepath.Join(p.Dir, name), filepath.Join(dst, name)); err != nil {
			return err
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e, ok := export[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup)}
	if p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tpkg, err := conf.Check(p.ImportPath, fset, asts, info)
	if err != nil {
		return fmt.Errorf("type-checking %s: %v", p.ImportPath, err)
	}
	in := &inst{o: o, p: p, fset: fset, info: info, tick: tick, modDir: modDir, embedded: map[types.Object]bool{}}
	var resets []string
	o.Packages++
	for _, f := range files {
		o.Files++
		in.f = f
		in.needRT = false
		in.file()
		if in.err != nil {
			return in.err
		}
	}
	if !tick {
		resets, err = in.resets(files, tpkg)
		if err != nil {
			return err
		}
	}
	for _, f := range files {
		out := f.render(0, len(f.src))
		out += f.tail.String()
		if err := os.MkdirAll(dst, 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, f.name), []byte(out), 0o644); err != nil {
			return err
		}
	}
	if !tick {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", p.Name)
		if isRoot {
			b.WriteString("import simrt \"verif.local/sim/simrt\"\n")
			for i, q := range internals {
				fmt.Fprintf(&b, "import simpkg%d %q\n", i, q.ImportPath)
			}
		}
		b.WriteString("\n// SimReset puts package-level variables back to their initial values.\nfunc SimReset() {\n")
		if isRoot {
			b.WriteString("\tsimrt.ForgetChans()\n")
			for i := range internals {
				fmt.Fprintf(&b, "\tsimpkg%d.SimReset()\n", i)
			}
		}
		for _, r := range resets {
			fmt.Fprintf(&b, "\t%s()\n", r)
		}
		b.WriteString("}\n")
		if err := os.WriteFile(filepath.Join(dst, "zz_simreset.go"), []byte(b.String()), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (f *file) add(at, end int, text string) {
	f.edits = append(f.edits, edit{at, end, text, len(f.edits)})
}

func (f *file) render(from, to int) string {
	es := make([]edit, 0, len(f.edits))
	for _, e := range f.edits {
		if e.at >= from && e.end <= to {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].at != es[j].at {
			return es[i].at < es[j].at
		}
		// Insertions before replacements at the same place.
		if (es[i].end == es[i].at) != (es[j].end == es[j].at) {
			return es[i].end == es[i].at
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	pos := from
	for _, e := range es {
		if e.at < pos {
			continue // inside text that was replaced
		}
		b.Write(f.src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(f.src[pos:to])
	return b.String()
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) fail(n ast.Node, format string, args ...any) {
	if in.err == nil {
		in.err = fmt.Errorf("%s: %s", in.fset.Position(n.Pos()), fmt.Sprintf(format, args...))
	}
}

func (in *inst) yield(pos token.Pos) string {
	in.needRT = true
	if in.tick {
		return "simrt.T(); "
	}
	po := in.fset.Position(pos)
	name := po.Filename
	if r, err := filepath.Rel(in.modDir, name); err == nil {
		name = r
	}
	in.o.Sites = append(in.o.Sites, Site{name, po.Line})
	return fmt.Sprintf("simrt.Y(%d); ", len(in.o.Sites)-1)
}

func (in *inst) file() {
	f := in.f
	for _, im := range f.ast.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if path == "unsafe" || path == "C" {
			continue
		}
		if s, ok := shims[path]; ok && !in.tick {
			name := path[strings.LastIndex(path, "/")+1:]
			if path == "math/rand/v2" {
				name = "rand"
			}
			text := strconv.Quote(s)
			if im.Name == nil {
				text = name + " " + text
			}
			f.add(in.off(im.Path.Pos()), in.off(im.Path.End()), text)
		}
	}
	for _, d := range f.ast.Decls {
		ast.Inspect(d, in.visit)
	}
	if in.needRT {
		f.add(in.off(f.ast.Name.End()), in.off(f.ast.Name.End()), "; import simrt \"verif.local/sim/simrt\"")
	}
}

func (in *inst) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.f.add(in.off(s.Pos()), in.off(s.Pos()), in.yield(s.Pos()))
	}
}

func (in *inst) visit(n ast.Node) bool {
	if in.err != nil {
		return false
	}
	switch t := n.(type) {
	case *ast.BlockStmt:
		in.stmts(t.List)
	case *ast.CaseClause:
		in.stmts(t.Body)
	case *ast.CommClause:
		in.stmts(t.Body)
	case *ast.ForStmt:
		in.emptyBody(t.Body)
	case *ast.RangeStmt:
		in.emptyBody(t.Body)
		if !in.tick {
			in.rangeStmt(t)
		}
	case *ast.GoStmt:
		if in.tick {
			in.fail(t, "go statement")
			return false
		}
		in.goStmt(t)
	case *ast.SelectStmt:
		in.selectStmt(t)
		return false
	case *ast.SendStmt:
		in.needRT = true
		f := in.f
		f.add(in.off(t.Chan.Pos()), in.off(t.Chan.Pos()), "simrt.Send(")
		f.add(in.off(t.Chan.End()), in.off(t.Value.Pos()), ")(")
		f.add(in.off(t.Value.End()), in.off(t.Value.End()), ")")
	case *ast.UnaryExpr:
		if t.Op == token.ARROW {
			in.needRT = true
			name := "simrt.Recv("
			if tv, ok := in.info.Types[t]; ok {
				if _, ok := tv.Type.(*types.Tuple); ok {
					name = "simrt.Recv2("
				}
			}
			in.f.add(in.off(t.OpPos), in.off(t.X.Pos()), name)
			in.f.add(in.off(t.X.End()), in.off(t.X.End()), ")")
		}
	case *ast.SelectorExpr:
		in.selector(t)
	case *ast.CallExpr:
		if id, ok := t.Fun.(*ast.Ident); ok {
			if b, ok := in.info.Uses[id].(*types.Builtin); ok {
				switch b.Name() {
				case "close":
					in.needRT = true
					in.f.add(in.off(id.Pos()), in.off(id.End()), "simrt.Close")
				case "make":
					if len(t.Args) > 0 {
						if _, ok := in.info.Types[t.Args[0]].Type.Underlying().(*types.Chan); ok {
							in.needRT = true
							if len(t.Args) == 1 {
								in.f.add(in.off(t.Args[0].End()), in.off(t.Args[0].End()), ", simrt.Unbuffered()")
								in.f.add(in.off(t.Pos()), in.off(t.Pos()), "simrt.Chan(")
								in.f.add(in.off(t.End()), in.off(t.End()), ", 0)")
							} else {
								in.f.add(in.off(t.Pos()), in.off(t.Args[0].Pos()), "simrt.MakeChan[")
								in.f.add(in.off(t.Args[0].End()), in.off(t.Args[1].Pos()), "](int(")
								in.f.add(in.off(t.Rparen), in.off(t.Rparen), ")")
							}
						}
					}
				}
			}
		}
	case *ast.FuncDecl:
		if t.Recv == nil && t.Name.Name == "init" && !in.tick {
			in.uniq++
			name := fmt.Sprintf("simUserInit%d_%d", in.o.Files, in.uniq)
			in.f.add(in.off(t.Name.Pos()), in.off(t.Name.End()), name)
			fmt.Fprintf(&in.f.tail, "\nfunc init() { %s() }\n", name)
		}
	case *ast.GenDecl:
		if t.Tok == token.VAR {
			in.embeds(t)
		}
	}
	return true
}

// selectStmt turns
//
//	select { case v, ok := <-a: B; case c <- x: C; default: D }
//
// into
//
//	switch s0, s1 := simrt.CRecv(a), simrt.CSend(c)(x); simrt.Select(true, s0, s1) {
//	case 0: v, ok := s0.V, s0.OK; B
//	case 1: C
//	default: D }
func (in *inst) selectStmt(t *ast.SelectStmt) {
	in.needRT = true
	f := in.f
	text := func(e ast.Expr) string { return string(f.src[in.off(e.Pos()):in.off(e.End())]) }
	var lhs, rhs []string
	def := false
	for _, s := range t.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			continue
		}
		in.uniq++
		n := len(lhs)
		name := fmt.Sprintf("simc%d", in.uniq)
		lhs = append(lhs, name)
		head := fmt.Sprintf("case %d: ", n)
		recv := func(e ast.Expr) string {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			u, ok := e.(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				in.fail(c, "select case of this form is not supported")
				return ""
			}
			return "simrt.CRecv(" + text(u.X) + ")"
		}
		switch q := c.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, "simrt.CSend("+text(q.Chan)+")("+text(q.Value)+")")
		case *ast.ExprStmt:
			rhs = append(rhs, recv(q.X))
		case *ast.AssignStmt:
			rhs = append(rhs, recv(q.Rhs[0]))
			vals := []string{name + ".V", name + ".OK"}
			head += text(q.Lhs[0])
			if len(q.Lhs) == 2 {
				head += ", " + text(q.Lhs[1])
			}
			head += " " + q.Tok.String() + " " + strings.Join(vals[:len(q.Lhs)], ", ") + "; "
		}
		f.add(in.off(c.Case), in.off(c.Colon)+1, head)
	}
	head := "switch "
	if len(lhs) > 0 {
		head += strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
	}
	head += fmt.Sprintf("simrt.Select(%s) {", strings.Join(append([]string{fmt.Sprint(def)}, lhs...), ", "))
	f.add(in.off(t.Select), in.off(t.Body.Lbrace)+1, head)
	for _, s := range t.Body.List {
		c := s.(*ast.CommClause)
		in.stmts(c.Body)
		for _, b := range c.Body {
			ast.Inspect(b, in.visit)
		}
	}
	if !def {
		f.add(in.off(t.Body.Rbrace), in.off(t.Body.Rbrace), "default: panic(\"unreachable\"); ")
	}
}

// Names of packages that are otherwise left alone, and what stands in for them.
var members = map[string][2]string{
	"io.Pipe":                   {"verif.local/sim/simio", "Pipe"},
	"io.PipeReader":             {"verif.local/sim/simio", "PipeReader"},
	"io.PipeWriter":             {"verif.local/sim/simio", "PipeWriter"},
	"runtime.Gosched":           {"verif.local/sim/simtime", "Gosched"},
	"context.WithCancel":        {"verif.local/sim/simcontext", "WithCancel"},
	"context.WithCancelCause":   {"verif.local/sim/simcontext", "WithCancelCause"},
	"context.WithDeadline":      {"verif.local/sim/simcontext", "WithDeadline"},
	"context.WithDeadlineCause": {"verif.local/sim/simcontext", "WithDeadlineCause"},
	"context.WithTimeout":       {"verif.local/sim/simcontext", "WithTimeout"},
	"context.WithTimeoutCause":  {"verif.local/sim/simcontext", "WithTimeoutCause"},
	"context.Cause":             {"verif.local/sim/simcontext", "Cause"},
	"context.AfterFunc":         {"verif.local/sim/simcontext", "AfterFunc"},
	"context.WithoutCancel":     {"verif.local/sim/simcontext", "WithoutCancel"},
}

func (in *inst) selector(t *ast.SelectorExpr) {
	id, ok := t.X.(*ast.Ident)
	if !ok || in.tick {
		return
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	m, ok := members[pn.Imported().Path()+"."+t.Sel.Name]
	if !ok {
		return
	}
	alias := "simm" + m[0][strings.LastIndex(m[0], "/")+1:]
	in.f.add(in.off(t.Pos()), in.off(t.End()), alias+"."+m[1])
	imp := "; import " + alias + " " + strconv.Quote(m[0])
	for _, e := range in.f.edits {
		if e.text == imp {
			return
		}
	}
	in.f.add(in.off(in.f.ast.Name.End()), in.off(in.f.ast.Name.End()), imp)
	// The package itself may not be used for anything else.
	fmt.Fprintf(&in.f.tail, "\nvar _ = %s.%s\n", id.Name, map[string]string{"io": "EOF", "runtime": "GC", "context": "Canceled"}[pn.Imported().Path()])
}

func hasEmbed(c *ast.CommentGroup) bool {
	if c != nil {
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:embed") {
				return true
			}
		}
	}
	return false
}

func (in *inst) embeds(d *ast.GenDecl) {
	for _, s := range d.Specs {
		vs := s.(*ast.ValueSpec)
		if hasEmbed(d.Doc) || hasEmbed(vs.Doc) {
			for _, n := range vs.Names {
				in.embedded[in.info.Defs[n]] = true
			}
		}
	}
}

func (in *inst) emptyBody(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		in.f.add(in.off(b.Lbrace)+1, in.off(b.Lbrace)+1, in.yield(b.Pos()))
	}
}

func (in *inst) rangeStmt(t *ast.RangeStmt) {
	typ := in.info.Types[t.X].Type
	if tp, ok := typ.(*types.TypeParam); ok {
		typ = coreType(tp)
	}
	if typ == nil {
		return
	}
	switch typ.Underlying().(type) {
	case *types.Map:
	case *types.Chan:
		in.chanRange(t)
		return
	case *types.Signature:
		return // an iterator: its yields happen inside
	default:
		return
	}
	in.needRT = true
	in.uniq++
	it := fmt.Sprintf("simit%d", in.uniq)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	text := func(e ast.Expr) string { return string(in.f.src[in.off(e.Pos()):in.off(e.End())]) }
	k, v, dk, dv := "nil", "nil", "_", "_"
	if !blank(t.Key) {
		k = "&" + text(t.Key)
		if t.Tok == token.DEFINE {
			dk = text(t.Key)
		}
	}
	if !blank(t.Value) {
		v = "&" + text(t.Value)
		if t.Tok == token.DEFINE {
			dv = text(t.Value)
		}
	}
	if t.Tok == token.ASSIGN {
		for _, e := range []ast.Expr{t.Key, t.Value} {
			if e != nil {
				if _, ok := e.(*ast.IndexExpr); ok {
					in.fail(t, "range assigning to an index expression")
				}
			}
		}
	}
	f := in.f
	// for k, v := range X {   ->   for it, k, v := simrt.Range(X); it.Next(&k, &v); {
	f.add(in.off(t.For), in.off(t.X.Pos()), fmt.Sprintf("for %s, %s, %s := simrt.Range(", it, dk, dv))
	f.add(in.off(t.X.End()), in.off(t.X.End()), fmt.Sprintf("); %s.Next(%s, %s);", it, k, v))
}

func coreType(tp *types.TypeParam) types.Type {
	i, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || i.NumEmbeddeds() != 1 {
		return nil
	}
	switch e := i.EmbeddedType(0).(type) {
	case *types.Union:
		if e.Len() == 1 {
			return e.Term(0).Type()
		}
		return nil
	default:
		return e.Underlying()
	}
}

func (in *inst) chanRange(t *ast.RangeStmt) {
	if t.Tok == token.ASSIGN {
		in.fail(t, "range over a channel with assignment")
		return
	}
	in.needRT = true
	in.uniq++
	ok := fmt.Sprintf("simok%d", in.uniq)
	key := "_"
	if t.Key != nil {
		key = string(in.f.src[in.off(t.Key.Pos()):in.off(t.Key.End())])
	}
	f := in.f
	x := string(f.src[in.off(t.X.Pos()):in.off(t.X.End())])
	ch := fmt.Sprintf("simch%d", in.uniq)
	f.add(in.off(t.For), in.off(t.Body.Lbrace)+1, fmt.Sprintf("for %s := %s; ; { %s, %s := simrt.Recv2(%s); if !%s { break }; ", ch, x, key, ok, ch, ok))
}

func (in *inst) goStmt(t *ast.GoStmt) {
	in.needRT = true
	in.uniq++
	f := in.f
	n := in.uniq
	// go f(a, b)  ->  { t := simrt.NewTask(); f', a', b' evaluated now; go func() { defer simrt.Enter(t)(); f'(a', b') }() }
	if lit, ok := t.Call.Fun.(*ast.FuncLit); ok {
		// The go statement itself evaluates the arguments.
		f.add(in.off(t.Go), in.off(t.Go), fmt.Sprintf("simt%d := simrt.NewTask(); ", n))
		at := in.off(lit.Body.Lbrace) + 1
		f.edits = append([]edit{{at, at, fmt.Sprintf("defer simrt.Enter(simt%d)(); ", n), -n}}, f.edits...)
		return
	}
	if t.Call.Ellipsis.IsValid() {
		in.fail(t, "go statement with ... arguments")
		return
	}
	f.add(in.off(t.Go), in.off(t.Go), fmt.Sprintf("simt%d := simrt.NewTask(); ", n))
	fun := t.Call.Fun
	names := []string{}
	for i := range t.Call.Args {
		names = append(names, fmt.Sprintf("sima%d_%d", n, i))
	}
	text := func(e ast.Expr) string { return f.render(in.off(e.Pos()), in.off(e.End())) }
	var pre strings.Builder
	switch fun.(type) {
	case *ast.Ident, *ast.SelectorExpr:
		fmt.Fprintf(&pre, "simf%d := %s; ", n, text(fun))
	default:
		in.fail(t, "go statement of this form is not supported")
		return
	}
	for i, a := range t.Call.Args {
		if tv := in.info.Types[a]; tv.Value != nil || tv.IsNil() {
			names[i] = text(a)
			continue
		}
		fmt.Fprintf(&pre, "%s := %s; ", names[i], text(a))
	}
	f.add(in.off(t.Call.Pos()), in.off(t.Call.End()), fmt.Sprintf("func() { defer simrt.Enter(simt%d)(); simf%d(%s) }()", n, n, strings.Join(names, ", ")))
	f.add(in.off(t.Go), in.off(t.Go), pre.String())
}

// resets appends functions that redo the initialisation of package-level variables.
func (in *inst) resets(files []*file, tpkg *types.Package) ([]string, error) {
	fileOf := func(pos token.Pos) *file {
		name := in.fset.Position(pos).Filename
		for _, f := range files {
			if in.fset.Position(f.ast.Pos()).Filename == name {
				return f
			}
		}
		return nil
	}
	var names []string
	inited := map[types.Object]bool{}
	k := 0
	emit := func(f *file, body string) {
		k++
		name := fmt.Sprintf("simReset%d", k)
		fmt.Fprintf(&f.tail, "\nfunc %s() { %s }\n", name, body)
		names = append(names, name)
	}
	// Variables without an initialiser first: initialisers may read them.
	for _, in2 := range in.info.InitOrder {
		for _, v := range in2.Lhs {
			inited[v] = true
		}
	}
	for _, f := range files {
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					obj := in.info.Defs[n]
					if obj == nil || inited[obj] || in.embedded[obj] || n.Name == "_" || len(s.(*ast.ValueSpec).Values) > 0 {
						continue
					}
					body := fmt.Sprintf("simrt.Zero(&%s)", n.Name)
					in.ensureRT(f)
					emit(f, body)
				}
			}
		}
	}
	for _, ini := range in.info.InitOrder {
		var lhs []string
		all := true
		for _, v := range ini.Lhs {
			if v.Name() != "_" {
				all = false
			}
			lhs = append(lhs, v.Name())
		}
		if all {
			continue
		}
		f := fileOf(ini.Rhs.Pos())
		if f == nil {
			return nil, fmt.Errorf("no file for initialiser of %v", lhs)
		}
		emit(f, strings.Join(lhs, ", ")+" = "+f.render(in.off(ini.Rhs.Pos()), in.off(ini.Rhs.End())))
	}
	// init functions last.
	for _, f := range files {
		for _, e := range f.edits {
			if strings.HasPrefix(e.text, "simUserInit") {
				names = append(names, e.text)
			}
		}
	}
	return names, nil
}

func (in *inst) ensureRT(f *file) {
	for _, e := range f.edits {
		if strings.HasPrefix(e.text, "; import simrt ") {
			return
		}
	}
	f.add(in.off(f.ast.Name.End()), in.off(f.ast.Name.End()), "; import simrt \"verif.local/sim/simrt\"")
}
