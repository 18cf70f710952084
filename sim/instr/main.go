// Command instr rewrites the packages of the repository so that they run under
// the deterministic simulation runtime, and writes a go build overlay.  It works
// on whatever the working tree contains: nothing in here names a function of the
// repository.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/fakeyanss/jt808-server-go"
const zz = modPath + "/zzsim"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

type edit struct {
	off, end int
	text     string
	prio     int
	seq      int
}

type filer struct {
	fset   *token.FileSet
	file   *ast.File
	src    []byte
	base   int
	info   *types.Info
	edits  []edit
	noY    bool
	level  int
	uses   map[*types.PkgName]int
	gone   map[*types.PkgName]int
	needRT bool
	needNT bool
	inComm map[ast.Node]bool
	tmp    int
}

func (f *filer) off(p token.Pos) int { return f.fset.Position(p).Offset }
func (f *filer) add(o, e int, t string, prio int) {
	f.edits = append(f.edits, edit{o, e, t, prio, len(f.edits)})
}
func (f *filer) ins(p token.Pos, t string, prio int) { o := f.off(p); f.add(o, o, t, prio) }
func (f *filer) rep(p, q token.Pos, t string)        { f.add(f.off(p), f.off(q), t, 5) }
func (f *filer) raw(n ast.Node) string               { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

// render applies the edits inside [a,b).
func (f *filer) render(a, b int) string {
	var es []edit
	for _, e := range f.edits {
		if e.off >= a && e.end <= b {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		// insertions before replacements at the same place
		zi, zj := es[i].off == es[i].end, es[j].off == es[j].end
		if zi != zj {
			return zi
		}
		if es[i].prio != es[j].prio {
			return es[i].prio < es[j].prio
		}
		return es[i].seq < es[j].seq
	})
	var out bytes.Buffer
	pos := a
	for _, e := range es {
		if e.off < pos {
			continue // inside an already replaced range
		}
		out.Write(f.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(f.src[pos:b])
	return out.String()
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	}
	return false
}

// pkgSel returns "path.Name" if e is a qualified identifier.
func (f *filer) pkgSel(e ast.Expr) (string, *types.PkgName) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return "", nil
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return "", nil
	}
	pn, ok := f.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", nil
	}
	return pn.Imported().Path() + "." + s.Sel.Name, pn
}

var funcSwap = map[string]string{
	"time.Sleep":                      "zzrt.Sleep",
	"time.AfterFunc":                  "zzrt.AfterFunc",
	"time.Now":                        "zzrt.Now",
	"time.Since":                      "zzrt.Since",
	"time.Until":                      "zzrt.Until",
	"os.Exit":                         "zzrt.Exit",
	"github.com/rs/zerolog/log.Fatal": "zzrt.LogFatal",
	"runtime.Gosched":                 "zzrt.Gosched",
	"golang.org/x/exp/maps.Keys":      "zzrt.Keys",
	"golang.org/x/exp/maps.Values":    "zzrt.Values",
	"context.AfterFunc":               "zzrt.CtxAfterFunc",
	"maps.Keys":                       "zzrt.SeqKeys",
	"maps.Values":                     "zzrt.SeqValues",
	"maps.All":                        "zzrt.SeqAll",
	"os/signal.Notify":                "zzrt.Notify",
	"os/signal.NotifyContext":         "zzrt.NotifyContext",
	"net/http.ListenAndServe":         "zzrt.ListenAndServe",
	"net/http.Serve":                  "zzrt.HTTPServe",
	"net.Listen":                      "zznet.Listen",
	"net.ListenTCP":                   "zznet.ListenTCP",
	"net.Dial":                        "zznet.Dial",
	"net.DialTimeout":                 "zznet.DialTimeout",
	"net.DialTCP":                     "zznet.DialTCP",
	"net.TCPConn":                     "zznet.Conn",
	"gopkg.in/natefinch/lumberjack.v2.Logger": "zzrt.LogFile",
	"net.TCPListener":                         "zznet.Listener",
	"net.Dialer":                              "zznet.Dialer",
	"net.ListenConfig":                        "zznet.ListenConfig",
}

func (f *filer) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch e := s.(type) {
		case *ast.EmptyStmt:
			if e.Implicit {
				continue
			}
		case *ast.CaseClause, *ast.CommClause:
			continue
		}
		if !f.noY {
			f.ins(s.Pos(), "zzrt.Y(); ", 0)
			f.needRT = true
		}
		if f.level >= 2 {
			f.mapMarks(s)
		}
	}
}

// mapMarks inserts access markers for maps touched directly by statement s.
func (f *filer) mapMarks(s ast.Stmt) {
	if l, ok := s.(*ast.LabeledStmt); ok {
		s = l.Stmt
	}
	seen := map[string]bool{}
	mark := func(e ast.Expr, write bool, at token.Pos) {
		if !pure(e) {
			return
		}
		k := fmt.Sprint(f.raw(e), write)
		if seen[k] {
			return
		}
		seen[k] = true
		fn := "zzrt.MR("
		if write {
			fn = "zzrt.MW("
		}
		f.ins(at, fn+f.raw(e)+"); ", 1)
		f.needRT = true
	}
	lhs := map[ast.Expr]bool{}
	pos := s.Pos()
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.BinaryExpr:
				if y.Op == token.LAND || y.Op == token.LOR { // the right side may not be evaluated at all
					walk(y.X)
					return false
				}
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if ix, ok := l.(*ast.IndexExpr); ok {
						lhs[ix] = true
					}
				}
			case *ast.IncDecStmt:
				if ix, ok := y.X.(*ast.IndexExpr); ok {
					lhs[ix] = true
				}
			case *ast.IndexExpr:
				if isMap(f.info.TypeOf(y.X)) && !f.info.Types[y.X].IsType() {
					mark(y.X, lhs[y], pos)
				}
			case *ast.CallExpr:
				if id, ok := y.Fun.(*ast.Ident); ok && id.Name == "delete" && len(y.Args) == 2 && isMap(f.info.TypeOf(y.Args[0])) {
					if _, b := f.info.Uses[id].(*types.Builtin); b {
						mark(y.Args[0], true, pos)
					}
				}
				if id, ok := y.Fun.(*ast.Ident); ok && id.Name == "clear" && len(y.Args) == 1 && isMap(f.info.TypeOf(y.Args[0])) {
					mark(y.Args[0], true, pos)
				}
			}
			return true
		})
	}
	// Only what is evaluated before the statement's scoped declarations exist may be
	// marked in front of it; skip statements whose header declares variables that the
	// marked expression could refer to.
	switch y := s.(type) {
	case *ast.IfStmt:
		if y.Init != nil {
			walk(y.Init)
			if f.declares(y.Init) {
				// the condition may use the declared names
				return
			}
		}
		walk(y.Cond)
	case *ast.SwitchStmt:
		if y.Init != nil {
			walk(y.Init)
			if f.declares(y.Init) {
				return
			}
		}
		if y.Tag != nil {
			walk(y.Tag)
		}
	case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.TypeSwitchStmt, *ast.BlockStmt:
	case *ast.DeferStmt, *ast.GoStmt:
	default:
		walk(s)
	}
}

func (f *filer) declares(s ast.Stmt) bool {
	a, ok := s.(*ast.AssignStmt)
	return ok && a.Tok == token.DEFINE && func() bool {
		// `if v, ok := m[k]; ok` : the condition normally only uses v, ok
		return true
	}()
}

func (f *filer) isTuple2(e ast.Expr) bool {
	u, ok := e.(*ast.UnaryExpr)
	return ok && u.Op == token.ARROW
}

func (f *filer) walk() {
	recv2 := map[ast.Expr]bool{}
	ast.Inspect(f.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 && f.isTuple2(x.Rhs[0]) {
				recv2[x.Rhs[0]] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 && f.isTuple2(x.Values[0]) {
				recv2[x.Values[0]] = true
			}
		}
		return true
	})
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			f.stmts(x.List)
		case *ast.CaseClause:
			f.stmts(x.Body)
		case *ast.CommClause:
			f.stmts(x.Body)
			for _, s := range x.Body {
				ast.Inspect(s, visit)
			}
			return false
		case *ast.ForStmt:
			if len(x.Body.List) == 0 && !f.noY {
				f.add(f.off(x.Body.Lbrace)+1, f.off(x.Body.Lbrace)+1, "zzrt.Y(); ", 0)
				f.needRT = true
			}
		case *ast.RangeStmt:
			t := f.info.TypeOf(x.X)
			if isChan(t) {
				f.rangeChan(x)
				ast.Inspect(x.Body, visit)
				return false
			}
			if isMap(t) {
				f.rangeMap(x)
				ast.Inspect(x.Body, visit)
				return false
			}
		case *ast.GoStmt:
			f.goStmt(x)
		case *ast.SendStmt:
			f.ins(x.Pos(), "zzrt.SendTo(", 3)
			f.add(f.off(x.Arrow), f.off(x.Arrow)+2, ")(", 5)
			f.ins(x.End(), ")", -1)
			f.needRT = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				fn := "zzrt.Recv("
				if recv2[x] {
					fn = "zzrt.Recv2("
				}
				f.add(f.off(x.OpPos), f.off(x.OpPos)+2, fn, 5)
				f.ins(x.End(), ")", -1)
				f.needRT = true
			}
		case *ast.SelectStmt:
			f.selectStmt(x)
		case *ast.CallExpr:
			f.call(x)
		case *ast.SelectorExpr:
			if name, pn := f.pkgSel(x); pn != nil {
				if to, ok := funcSwap[name]; ok {
					f.rep(x.Pos(), x.End(), to)
					f.gone[pn]++
					if strings.HasPrefix(to, "zznet.") {
						f.needNT = true
					} else {
						f.needRT = true
					}
					return false
				}
			}
		case *ast.IncDecStmt:
			if f.level >= 2 && f.shared(x.X) && !f.noY {
				fn := "zzrt.Add(&"
				if x.Tok == token.DEC {
					fn = "zzrt.Sub(&"
				}
				f.ins(x.Pos(), fn, 3)
				f.add(f.off(x.TokPos), f.off(x.TokPos)+2, ", 1)", 5)
			}
		case *ast.AssignStmt:
			if f.level >= 2 && !f.noY && len(x.Lhs) == 1 && len(x.Rhs) == 1 && f.shared(x.Lhs[0]) {
				switch x.Tok {
				case token.ADD_ASSIGN, token.SUB_ASSIGN:
					fn := "zzrt.Add(&"
					if x.Tok == token.SUB_ASSIGN {
						fn = "zzrt.Sub(&"
					}
					f.ins(x.Pos(), fn, 3)
					f.add(f.off(x.TokPos), f.off(x.TokPos)+2, ", ", 5)
					f.ins(x.End(), ")", -2)
				case token.ASSIGN:
					f.ins(x.Pos(), "zzrt.SetP(&", 3)
					f.add(f.off(x.TokPos), f.off(x.TokPos)+1, ")(", 5)
					f.ins(x.End(), ")", -2)
				}
			}
		}
		return true
	}
	for _, d := range f.file.Decls {
		ast.Inspect(d, visit)
	}
}

// shared: a field reached through a pointer, or a package-level variable, of plain type.
func (f *filer) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		sel := f.info.Selections[x]
		if sel == nil {
			return false
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if !pure(x.X) {
			return false
		}
		t := f.info.TypeOf(x.X)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Pointer)
		return ok
	case *ast.Ident:
		v, ok := f.info.Uses[x].(*types.Var)
		return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	}
	return false
}

func (f *filer) rangeChan(x *ast.RangeStmt) {
	f.tmp++
	c, ok := fmt.Sprintf("zzch%d", f.tmp), fmt.Sprintf("zzok%d", f.tmp)
	k := "_"
	if x.Key != nil {
		k = f.raw(x.Key)
	}
	decl := fmt.Sprintf("%s, %s := zzrt.Recv2(%s)", k, ok, c)
	if x.Tok == token.ASSIGN {
		decl = fmt.Sprintf("var %s bool; %s, %s = zzrt.Recv2(%s)", ok, k, ok, c)
	}
	f.rep(x.For, x.Body.Lbrace+1, fmt.Sprintf("for %s := %s; ; { %s; if !%s { break }; { ", c, f.raw(x.X), decl, ok))
	f.ins(x.Body.Rbrace, " }", 9) // the body may declare the loop variable anew
	f.needRT = true
}

func (f *filer) rangeMap(x *ast.RangeStmt) {
	f.tmp++
	it := fmt.Sprintf("zzit%d", f.tmp)
	body := ""
	tok := ":="
	if x.Tok == token.ASSIGN {
		tok = "="
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch {
	case blank(x.Key) && blank(x.Value):
	case blank(x.Value):
		body = fmt.Sprintf("%s %s %s.K; ", f.raw(x.Key), tok, it)
	case blank(x.Key):
		body = fmt.Sprintf("%s %s %s.V; ", f.raw(x.Value), tok, it)
	default:
		body = fmt.Sprintf("%s, %s %s %s.K, %s.V; ", f.raw(x.Key), f.raw(x.Value), tok, it, it)
	}
	f.rep(x.For, x.Body.Lbrace+1, fmt.Sprintf("for %s := zzrt.Iter(%s); %s.Next(); { %s{ ", it, f.raw(x.X), it, body))
	f.ins(x.Body.Rbrace, " }", 9)
	f.needRT = true
}

func (f *filer) goStmt(x *ast.GoStmt) {
	f.needRT = true
	c := x.Call
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		f.add(f.off(x.Go), f.off(x.Go)+2, "zzrt.Go(", 5)
		f.rep(c.Lparen, c.Rparen+1, ")")
		return
	}
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, b := f.info.Uses[id].(*types.Builtin); b {
			f.add(f.off(x.Go), f.off(x.Go)+2, "zzrt.Go(func() { ", 5)
			f.ins(x.End(), " })", -1)
			return
		}
	}
	f.tmp++
	fn := fmt.Sprintf("zzf%d", f.tmp)
	f.add(f.off(x.Go), f.off(x.Go)+2, "{ "+fn+" := ", 5)
	var lhs, args []string
	newVar := false
	if len(c.Args) == 1 {
		if tp, ok := f.info.TypeOf(c.Args[0]).(*types.Tuple); ok {
			for i := 0; i < tp.Len(); i++ {
				v := fmt.Sprintf("zza%d_%d", f.tmp, i)
				lhs = append(lhs, v)
				args = append(args, v)
			}
			newVar = true
		}
	}
	if lhs == nil {
		for i, a := range c.Args {
			tv := f.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				lhs = append(lhs, "_")
				args = append(args, f.raw(a))
				f.rep(a.Pos(), a.End(), "0")
				continue
			}
			v := fmt.Sprintf("zza%d_%d", f.tmp, i)
			lhs = append(lhs, v)
			args = append(args, v)
			newVar = true
		}
	}
	call := fn + "(" + strings.Join(args, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
		f.add(f.off(c.Ellipsis), f.off(c.Ellipsis)+3, "", 5)
	}
	call += ")"
	if len(lhs) == 0 {
		f.rep(c.Lparen, c.Lparen+1, "; ")
	} else {
		op := " := "
		if !newVar {
			op = " = "
		}
		f.rep(c.Lparen, c.Lparen+1, "; "+strings.Join(lhs, ", ")+op)
	}
	f.rep(c.Rparen, c.Rparen+1, "; zzrt.Go(func() { "+call+" }) }")
}

func (f *filer) selectStmt(x *ast.SelectStmt) {
	f.needRT = true
	if len(x.Body.List) == 0 {
		f.rep(x.Select, x.Body.Rbrace+1, "for { zzrt.Select(&zzrt.SelRes{}, false) }")
		return
	}
	f.tmp++
	id := f.tmp
	var names, vals, cases []string
	hasDefault := false
	idx := 0
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		cn := fmt.Sprintf("zzc%d_%d", id, idx)
		zr := fmt.Sprintf("zzr%d", id)
		hdr := fmt.Sprintf("case %d:", idx)
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			names = append(names, cn)
			vals = append(vals, f.raw(c.Chan))
			cases = append(cases, fmt.Sprintf("zzrt.WTo(%s)(%s)", cn, f.raw(c.Value)))
		case *ast.ExprStmt:
			u := ast.Unparen(c.X).(*ast.UnaryExpr)
			names = append(names, cn)
			vals = append(vals, f.raw(u.X))
			cases = append(cases, fmt.Sprintf("zzrt.R(%s)", cn))
		case *ast.AssignStmt:
			u := ast.Unparen(c.Rhs[0]).(*ast.UnaryExpr)
			names = append(names, cn)
			vals = append(vals, f.raw(u.X))
			cases = append(cases, fmt.Sprintf("zzrt.R(%s)", cn))
			if len(c.Lhs) == 1 {
				hdr += fmt.Sprintf(" %s %s zzrt.AsR(%s, %s);", f.raw(c.Lhs[0]), c.Tok, cn, zr)
			} else {
				hdr += fmt.Sprintf(" %s, %s %s zzrt.AsR(%s, %s), %s.OK;", f.raw(c.Lhs[0]), f.raw(c.Lhs[1]), c.Tok, cn, zr, zr)
			}
		}
		f.rep(cc.Case, cc.Colon+1, hdr)
		idx++
	}
	zr := fmt.Sprintf("zzr%d", id)
	names = append(names, zr)
	vals = append(vals, "new(zzrt.SelRes)")
	head := fmt.Sprintf("switch %s := %s; zzrt.Select(%s, %v", strings.Join(names, ", "), strings.Join(vals, ", "), zr, hasDefault)
	for _, c := range cases {
		head += ", " + c
	}
	head += ") {"
	f.rep(x.Select, x.Body.Lbrace+1, head)
	if !hasDefault {
		f.ins(x.Body.Rbrace, " default: panic(\"unreachable\") ", 9)
	}
}

func (f *filer) call(x *ast.CallExpr) {
	if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
		if _, b := f.info.Uses[id].(*types.Builtin); b {
			f.rep(id.Pos(), id.End(), "zzrt.Close")
			f.needRT = true
		}
		return
	}
	sel, ok := x.Fun.(*ast.SelectorExpr)
	if !ok {
		return
	}
	fn, ok := f.info.Uses[sel.Sel].(*types.Func)
	if !ok {
		return
	}
	switch fn.FullName() {
	case "(*github.com/gin-gonic/gin.Engine).Run":
		f.ins(x.Pos(), "zzrt.HTTPRun(", 2)
		t := ""
		if len(x.Args) > 0 {
			t = ", "
		}
		f.rep(sel.X.End(), x.Lparen+1, t)
		f.needRT = true
	case "(*github.com/gin-gonic/gin.Engine).RunListener", "(*net/http.Server).Serve":
		w := "zzrt.HTTPListener("
		if fn.Pkg().Path() == "net/http" {
			w = "zzrt.HTTPServerOn("
		}
		f.ins(x.Pos(), w, 2)
		f.rep(sel.X.End(), x.Lparen+1, ", ")
		f.needRT = true
	case "(*net/http.Server).ListenAndServe":
		f.ins(x.Pos(), "zzrt.HTTPServer(", 2)
		f.rep(sel.X.End(), x.Lparen+1, "")
		f.needRT = true
	}
}

type pkgOut struct {
	dir   string // virtual directory below the repository
	name  string
	files map[string]string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	level := flag.Int("level", 2, "2 full, 1 without map and field markers")
	simdir := flag.String("sim", "", "directory of the simulation packages")
	flag.Parse()
	log.SetFlags(0)

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,Standard,Module,ImportMap,Error", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	js, err := cmd.Output()
	if err != nil {
		log.Fatalf("instr: go list failed: %v", err)
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(js))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		q := p
		pkgs[p.ImportPath] = &q
		order = append(order, &q)
	}
	overlay := map[string]string{}
	os.RemoveAll(filepath.Join(*out, "src"))
	write := func(virt, content string) {
		real := filepath.Join(*out, "src", virt)
		if err := os.MkdirAll(filepath.Dir(real), 0o755); err != nil {
			log.Fatal(err)
		}
		if err := os.WriteFile(real, []byte(content), 0o644); err != nil {
			log.Fatal(err)
		}
		overlay[filepath.Join(*repo, virt)] = real
	}
	var serverPkgs, clientPkgs []string
	for _, p := range order {
		isRepo := p.Module != nil && p.Module.Path == modPath
		isDep := p.Module != nil && p.Module.Path == "github.com/fakeyanss/gron"
		if !isRepo && !isDep {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		isClientMain := isRepo && p.Name == "main" && rel != ""
		for _, client := range []bool{false, true} {
			if isDep && client {
				continue
			}
			if client && isRepo && rel == "" { // server main
				continue
			}
			if !client && (isClientMain || strings.HasPrefix(rel, "test/")) {
				continue
			}
			var vdir string
			name := p.Name
			switch {
			case isDep:
				vdir = "zzsim/dep/" + strings.TrimPrefix(p.ImportPath, "github.com/fakeyanss/")
			case !client && p.Name == "main":
				vdir, name = "zzsim/srvmain", "srvmain"
			case client && p.Name == "main":
				vdir, name = "zzsim/cli/"+rel, "climain"
			case client:
				vdir = "zzsim/cli/" + rel
			default:
				vdir = rel
			}
			files := instrument(p, pkgs, client, name, *level)
			for fn, txt := range files {
				write(filepath.Join(vdir, fn), txt)
			}
			if isRepo {
				ip := modPath + "/" + vdir
				if client {
					clientPkgs = append(clientPkgs, ip)
				} else {
					serverPkgs = append(serverPkgs, ip)
				}
			}
		}
	}
	// simulation packages
	for _, d := range []string{"simrt", "simsync", "simnet"} {
		copyDir(*simdir, d, "zzsim/"+d, write)
	}
	copyDir(*simdir, "harness", "zzsim/cli/harness", write)
	// reset list
	var b strings.Builder
	b.WriteString("package harness\n\nimport (\n")
	for i, p := range serverPkgs {
		fmt.Fprintf(&b, "\ts%d %q\n", i, p)
	}
	for i, p := range clientPkgs {
		fmt.Fprintf(&b, "\tc%d %q\n", i, p)
	}
	b.WriteString(")\n\nfunc resetServer() {\n")
	for i := range serverPkgs {
		fmt.Fprintf(&b, "\ts%d.SimReset()\n", i)
	}
	b.WriteString("}\n\nfunc resetClient() {\n")
	for i := range clientPkgs {
		fmt.Fprintf(&b, "\tc%d.SimReset()\n", i)
	}
	b.WriteString("}\n\n")
	for i, p := range serverPkgs {
		if strings.HasSuffix(p, "/srvmain") {
			fmt.Fprintf(&b, "func serverMain() { s%d.Main() }\n", i)
		}
	}
	hasCli := false
	for i, p := range clientPkgs {
		if strings.HasSuffix(p, "/test/client") {
			fmt.Fprintf(&b, "func clientMain() { c%d.Main() }\n", i)
			hasCli = true
		}
	}
	if !hasCli {
		fmt.Fprintf(&b, "var clientMain func()\n")
	}
	write("zzsim/cli/harness/zz_gen.go", b.String())

	oj, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), oj, 0o644); err != nil {
		log.Fatal(err)
	}
}

func copyDir(simdir, d, vdir string, write func(string, string)) {
	ents, err := os.ReadDir(filepath.Join(simdir, d))
	if err != nil {
		log.Fatal(err)
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			b, err := os.ReadFile(filepath.Join(simdir, d, e.Name()))
			if err != nil {
				log.Fatal(err)
			}
			write(filepath.Join(vdir, e.Name()), string(b))
		}
	}
}

func instrument(p *listPkg, pkgs map[string]*listPkg, client bool, name string, level int) map[string]string {
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, fn := range p.GoFiles {
		path := filepath.Join(p.Dir, fn)
		b, err := os.ReadFile(path)
		if err != nil {
			log.Fatal(err)
		}
		af, err := parser.ParseFile(fset, path, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			log.Fatalf("instr: %v", err)
		}
		files = append(files, af)
		srcs[af] = b
		names[af] = fn
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	conf := types.Config{Importer: imp, Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		log.Printf("instr: type check of %s: %v", p.ImportPath, err)
		if tp == nil {
			log.Fatal("instr: cannot type check")
		}
	}
	noY := strings.HasSuffix(p.ImportPath, "/internal/config") || strings.HasSuffix(p.ImportPath, "/pkg/logger")
	res := map[string]string{}
	initFn := map[ast.Expr]string{}
	var initFns []string
	var zero []string
	ctr := 0
	for fi, af := range files {
		f := &filer{fset: fset, file: af, src: srcs[af], info: info, noY: noY, level: level,
			uses: map[*types.PkgName]int{}, gone: map[*types.PkgName]int{}}
		for id, o := range info.Uses {
			if pn, ok := o.(*types.PkgName); ok && id.Pos() >= af.FileStart && id.Pos() < af.FileEnd {
				f.uses[pn]++
			}
		}
		f.walk()
		// imports
		for _, is := range af.Imports {
			path := strings.Trim(is.Path.Value, "\"`")
			var pn *types.PkgName
			if is.Name != nil {
				pn, _ = info.Defs[is.Name].(*types.PkgName)
			} else {
				pn, _ = info.Implicits[is].(*types.PkgName)
			}
			alias := ""
			if is.Name != nil {
				alias = is.Name.Name
			} else if pn != nil {
				alias = pn.Imported().Name()
			}
			np := path
			switch {
			case path == "sync":
				np = zz + "/simsync"
			case path == "github.com/fakeyanss/gron" || strings.HasPrefix(path, "github.com/fakeyanss/gron/"):
				np = zz + "/dep/" + strings.TrimPrefix(path, "github.com/fakeyanss/")
			case client && (path == modPath || strings.HasPrefix(path, modPath+"/")):
				np = zz + "/cli/" + strings.TrimPrefix(path, modPath+"/")
			}
			if pn != nil && f.gone[pn] > 0 && f.gone[pn] >= f.uses[pn] {
				alias = "_"
			}
			if np != path || alias == "_" {
				if alias != "" {
					alias += " "
				}
				f.rep(is.Pos(), is.End(), alias+fmt.Sprintf("%q", np))
			}
		}
		// package clause, main, init
		if name != p.Name {
			f.rep(af.Name.Pos(), af.Name.End(), name)
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				nn := fmt.Sprintf("zzinitfn_%d_%d", fi, ctr)
				ctr++
				f.rep(fd.Name.Pos(), fd.Name.End(), nn)
				initFns = append(initFns, nn)
			}
			if fd.Name.Name == "main" && p.Name == "main" {
				f.rep(fd.Name.Pos(), fd.Name.End(), "Main")
			}
		}
		var tail strings.Builder
		// variable initialisers, re-run by SimReset
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name != "_" {
							zero = append(zero, n.Name)
						}
					}
					continue
				}
				emit := func(lhs string, v ast.Expr) {
					nn := fmt.Sprintf("zzinit_%d_%d", fi, ctr)
					ctr++
					initFn[v] = nn
					fmt.Fprintf(&tail, "func %s() { %s = %s }\n", nn, lhs, f.render(f.off(v.Pos()), f.off(v.End())))
				}
				if len(vs.Values) == len(vs.Names) {
					for i, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						emit(n.Name, vs.Values[i])
					}
				} else {
					var ns []string
					for _, n := range vs.Names {
						ns = append(ns, n.Name)
					}
					emit(strings.Join(ns, ", "), vs.Values[0])
				}
			}
		}
		if client || name != p.Name {
			// nothing more: identical tree under another path
		}
		txt := f.render(0, len(f.src))
		// runtime imports go right behind the package clause, on the same line
		var im string
		im += fmt.Sprintf("; import zzrt %q", zz+"/simrt")
		if f.needNT {
			im += fmt.Sprintf("; import zznet %q", zz+"/simnet")
		}
		pe := f.off(af.Name.End())
		head := f.render(0, pe)
		txt = head + im + f.render(pe, len(f.src))
		txt += "\nvar _ = zzrt.Y\n" + tail.String()
		res[names[af]] = txt
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport zzrt %q\n\nvar _ = zzrt.Y\n\n// SimReset puts the package back into the state of a fresh process.\nfunc SimReset() {\n", name, zz+"/simrt")
	sort.Strings(zero)
	for _, z := range zero {
		fmt.Fprintf(&b, "\tzzrt.Zero(&%s)\n", z)
	}
	skip := strings.Contains(p.ImportPath, "/internal/codec/")
	for _, in := range info.InitOrder {
		if fn, ok := initFn[in.Rhs]; ok && !skip {
			fmt.Fprintf(&b, "\t%s()\n", fn)
		}
	}
	for _, fn := range initFns {
		fmt.Fprintf(&b, "\t%s()\n", fn)
	}
	b.WriteString("}\n")
	res["zz_simreset.go"] = b.String()
	return res
}
