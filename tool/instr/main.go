// instr rewrites the current source of selected packages so that every
// synchronisation operation goes through the controlled scheduler (vsched).
//
//	instr -dir MODULE_DIR -out OUTDIR -overlay IN.json pkg...
//
// It prints, as JSON, the map original file -> rewritten file.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	vschedPath = "github.com/ConsenSys/fc-retrieval/common/verif/vsched"
	vsyncPath  = "github.com/ConsenSys/fc-retrieval/common/verif/vsync"
	vlotusPath = "github.com/ConsenSys/fc-retrieval/common/verif/vlotus"
	vnetPath   = "github.com/ConsenSys/fc-retrieval/common/verif/vnet"
)

type pkgInfo struct {
	ImportPath, Dir, Export string
	GoFiles, CgoFiles       []string
	Error                   *struct{ Err string }
}

// replaced selectors: package path -> name -> shim package path (+ new name)
var repl = map[string]map[string][2]string{
	"sync": {
		"Mutex": {vsyncPath, "Mutex"}, "RWMutex": {vsyncPath, "RWMutex"}, "Once": {vsyncPath, "Once"},
		"WaitGroup": {vsyncPath, "WaitGroup"}, "Cond": {vsyncPath, "Cond"}, "NewCond": {vsyncPath, "NewCond"},
		"Map": {vsyncPath, "Map"}, "Pool": {vsyncPath, "Pool"},
	},
	"time": {
		"Now": {vschedPath, "Now"}, "Since": {vschedPath, "Since"}, "Until": {vschedPath, "Until"},
		"Sleep": {vschedPath, "Sleep"}, "After": {vschedPath, "After"}, "AfterFunc": {vschedPath, "AfterFunc"},
		"NewTimer": {vschedPath, "NewTimer"}, "Timer": {vschedPath, "Timer"},
		"NewTicker": {vschedPath, "NewTicker"}, "Ticker": {vschedPath, "Ticker"}, "Tick": {vschedPath, "Tick"},
	},
}

var lotusRepl = map[string][2]string{"NewMergeClient": {vlotusPath, "NewMergeClient"}, "NewClient": {vlotusPath, "NewClient"}}

var netRepl = map[string][2]string{
	"Listen": {vnetPath, "Listen"}, "Dial": {vnetPath, "Dial"}, "DialTimeout": {vnetPath, "DialTimeout"}, "Dialer": {vnetPath, "Dialer"}, "ListenConfig": {vnetPath, "ListenConfig"},
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(1)
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	need  map[string]string // shim path -> alias
	used  map[string]string // original import path -> one exported name to keep the import used
	tmp   int
	notes int
	dbPt  bool
	rnd   bool
}

func (r *rewriter) alias(path string) string {
	a := "verif_" + path[strings.LastIndex(path, "/")+1:]
	r.need[path] = a
	return a
}

func (r *rewriter) sel(path, name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(r.alias(path)), Sel: ast.NewIdent(name)}
}

func (r *rewriter) vs(name string) ast.Expr { return r.sel(vschedPath, name) }

func (r *rewriter) fresh(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("verif_%s%d", p, r.tmp))
}

func (r *rewriter) pkgOf(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// light replaces selectors only.
func (r *rewriter) light(af *ast.File) {
	ast.Inspect(af, func(n ast.Node) bool {
		x, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		p := r.pkgOf(x.X)
		t, ok := callRepl[p+"."+x.Sel.Name]
		if !ok && p == "github.com/filecoin-project/go-jsonrpc" {
			t, ok = lotusRepl[x.Sel.Name]
		}
		if p != "" && ok {
			r.notes++
			y := r.sel(t[0], t[1]).(*ast.SelectorExpr)
			x.X, x.Sel = y.X, y.Sel
		}
		return true
	})
}

// ---- expressions

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if p := r.pkgOf(x.X); p != "" {
			if t, ok := repl[p][x.Sel.Name]; ok {
				r.notes++
				return r.sel(t[0], t[1])
			}
			if p == "net" {
				if t, ok := netRepl[x.Sel.Name]; ok && vnetOn {
					r.notes++
					return r.sel(t[0], t[1])
				}
			}
			if t, ok := callRepl[p+"."+x.Sel.Name]; ok {
				r.notes++
				return r.sel(t[0], t[1])
			}
			if p == "github.com/filecoin-project/go-jsonrpc" {
				if t, ok := lotusRepl[x.Sel.Name]; ok {
					r.notes++
					return r.sel(t[0], t[1])
				}
			}
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		x.X = r.expr(x.X)
		if x.Op == token.ARROW {
			r.notes++
			return &ast.CallExpr{Fun: r.vs("Recv"), Args: []ast.Expr{x.X}}
		}
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			if _, isB := r.info.Uses[id].(*types.Builtin); isB && len(x.Args) == 1 && r.isChan(x.Args[0]) {
				switch id.Name {
				case "close":
					r.notes++
					return &ast.CallExpr{Fun: r.vs("Close"), Args: []ast.Expr{r.expr(x.Args[0])}}
				case "len":
					return &ast.CallExpr{Fun: r.vs("Len"), Args: []ast.Expr{r.expr(x.Args[0])}}
				}
			}
		}
		pt, wrap := "", ""
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if p := r.pkgOf(s.X); p == "sync/atomic" {
				pt = "atomic." + s.Sel.Name
			} else if sl, ok := r.info.Selections[s]; ok && sl.Obj() != nil && sl.Obj().Pkg() != nil && sl.Kind() == types.MethodVal {
				switch sl.Obj().Pkg().Path() {
				case "sync/atomic":
					pt = "atomic." + s.Sel.Name
				case "database/sql":
					if r.dbPt {
						switch s.Sel.Name {
						case "Exec", "Query", "QueryRow", "Begin", "BeginTx", "ExecContext", "QueryContext", "Prepare":
							pt = "sql." + s.Sel.Name
						case "Commit", "Rollback":
							wrap = "TxEnd"
						case "Next", "Close":
							if r.info.TypeOf(s.X).String() == "*database/sql.Rows" {
								wrap = "Rows" + s.Sel.Name
							}
						}
					}
				}
			}
		}
		if fl, ok := x.Fun.(*ast.FuncLit); ok {
			r.block(fl.Body)
			r.fieldList(fl.Type.Params)
			r.fieldList(fl.Type.Results)
		} else {
			x.Fun = r.expr(x.Fun)
		}
		if wrap != "" {
			r.notes++
			s := x.Fun.(*ast.SelectorExpr)
			if wrap == "TxEnd" {
				x.Fun = &ast.CallExpr{Fun: r.vs("TxEnd"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("sql." + s.Sel.Name)}, x.Fun}}
			} else {
				x.Fun = &ast.CallExpr{Fun: r.vs(wrap), Args: []ast.Expr{s.X}}
			}
		}
		if pt != "" {
			r.notes++
			x.Fun = &ast.CallExpr{Fun: r.vs("Pt"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(pt)}, x.Fun}}
		}
		for i := range x.Args {
			x.Args[i] = r.expr(x.Args[i])
		}
		return x
	case *ast.FuncLit:
		r.fieldList(x.Type.Params)
		r.fieldList(x.Type.Results)
		r.block(x.Body)
		return x
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		for i := range x.Elts {
			x.Elts[i] = r.expr(x.Elts[i])
		}
		return x
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		for i := range x.Indices {
			x.Indices[i] = r.expr(x.Indices[i])
		}
		return x
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X, x.Type = r.expr(x.X), r.expr(x.Type)
		return x
	case *ast.ArrayType:
		x.Elt = r.expr(x.Elt)
		x.Len = r.expr(x.Len)
		return x
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
		return x
	case *ast.StructType:
		r.fieldList(x.Fields)
		return x
	case *ast.FuncType:
		r.fieldList(x.Params)
		r.fieldList(x.Results)
		return x
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
		return x
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
		return x
	}
	return e
}

func (r *rewriter) fieldList(f *ast.FieldList) {
	if f == nil {
		return
	}
	for _, x := range f.List {
		x.Type = r.expr(x.Type)
	}
}

// ---- statements

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		out = append(out, r.stmt(s)...)
	}
	return out
}

func (r *rewriter) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		r.notes++
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: r.vs("Send"), Args: []ast.Expr{r.expr(x.Chan), r.expr(x.Value)}}}}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := isRecv(x.Rhs[0]); ok {
				r.notes++
				x.Rhs[0] = &ast.CallExpr{Fun: r.vs("Recv2"), Args: []ast.Expr{r.expr(u.X)}}
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				return []ast.Stmt{x}
			}
		}
		for i := range x.Lhs {
			x.Lhs[i] = r.expr(x.Lhs[i])
		}
		for i := range x.Rhs {
			x.Rhs[i] = r.expr(x.Rhs[i])
		}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.one(x.Else)
	case *ast.SwitchStmt:
		x.Init = r.one(x.Init)
		x.Tag = r.expr(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		x.Init = r.one(x.Init)
		x.Assign = r.one(x.Assign)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.ForStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.one(x.Post)
		r.block(x.Body)
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			return r.rangeChan(x, nil)
		}
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		x.X = r.expr(x.X)
		r.block(x.Body)
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.SelectStmt:
			return r.selectStmt(y, x.Label)
		case *ast.RangeStmt:
			if r.isChan(y.X) {
				return r.rangeChan(y, x.Label)
			}
		}
		l := r.stmt(x.Stmt)
		x.Stmt = l[0]
		return append([]ast.Stmt{x}, l[1:]...)
	case *ast.DeclStmt:
		r.decl(x.Decl)
	case *ast.CaseClause, *ast.CommClause:
		die("unexpected clause")
	}
	return []ast.Stmt{s}
}

func (r *rewriter) decl(d ast.Decl) {
	switch x := d.(type) {
	case *ast.GenDecl:
		for _, s := range x.Specs {
			switch y := s.(type) {
			case *ast.ValueSpec:
				y.Type = r.expr(y.Type)
				if len(y.Names) == 2 && len(y.Values) == 1 {
					if u, ok := isRecv(y.Values[0]); ok {
						y.Values[0] = &ast.CallExpr{Fun: r.vs("Recv2"), Args: []ast.Expr{r.expr(u.X)}}
						continue
					}
				}
				for i := range y.Values {
					y.Values[i] = r.expr(y.Values[i])
				}
			case *ast.TypeSpec:
				y.Type = r.expr(y.Type)
			}
		}
	case *ast.FuncDecl:
		r.fieldList(x.Recv)
		r.fieldList(x.Type.Params)
		r.fieldList(x.Type.Results)
		r.block(x.Body)
	}
}

func (r *rewriter) goStmt(x *ast.GoStmt) []ast.Stmt {
	r.notes++
	call := x.Call
	var lhs, rhs []ast.Expr
	hoist := func(e ast.Expr) ast.Expr {
		if tv, ok := r.info.Types[e]; ok {
			if tv.Value != nil || tv.IsNil() || tv.IsBuiltin() || tv.IsType() {
				return r.expr(e)
			}
		}
		t := r.fresh("g")
		lhs = append(lhs, t)
		rhs = append(rhs, r.expr(e))
		return ast.NewIdent(t.Name)
	}
	if fl, ok := call.Fun.(*ast.FuncLit); ok {
		call.Fun = r.expr(fl)
	} else if id, ok := call.Fun.(*ast.Ident); ok {
		if _, isF := r.info.Uses[id].(*types.Func); !isF {
			if _, isB := r.info.Uses[id].(*types.Builtin); !isB {
				call.Fun = hoist(call.Fun)
			}
		}
	} else if s, ok := call.Fun.(*ast.SelectorExpr); ok && r.pkgOf(s.X) != "" {
		call.Fun = r.expr(call.Fun)
	} else {
		call.Fun = hoist(call.Fun)
	}
	for i := range call.Args {
		call.Args[i] = hoist(call.Args[i])
	}
	goCall := &ast.ExprStmt{X: &ast.CallExpr{Fun: r.vs("Go"), Args: []ast.Expr{
		&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}},
	}}}
	if len(lhs) == 0 {
		return []ast.Stmt{goCall}
	}
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, goCall}}}
}

func (r *rewriter) rangeChan(x *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	r.notes++
	ch := r.fresh("c")
	v, ok := r.fresh("v"), r.fresh("ok")
	hoist := &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}}
	r.block(x.Body)
	body := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: r.vs("Recv2"), Args: []ast.Expr{ast.NewIdent(ch.Name)}}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}},
	}
	if x.Key != nil {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		if x.Tok == token.DEFINE {
			if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(id.Name)}})
			}
		}
	}
	body = append(body, x.Body)
	var loop ast.Stmt = &ast.ForStmt{Body: &ast.BlockStmt{List: body}}
	if label != nil {
		loop = &ast.LabeledStmt{Label: label, Stmt: loop}
	}
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{hoist, loop}}}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	r.notes++
	var pre []ast.Stmt
	hasDef := "false"
	args := []ast.Expr{nil}
	idx, rv := r.fresh("i"), r.fresh("r")
	var clauses []ast.Stmt
	k := 0
	hoist := func(e ast.Expr) *ast.Ident {
		c := r.fresh("c")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return c
	}
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			clauses = append(clauses, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		var bodyPre []ast.Stmt
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			ch := hoist(y.Chan)
			args = append(args, &ast.CallExpr{Fun: r.vs("SendCase"), Args: []ast.Expr{ast.NewIdent(ch.Name), r.expr(y.Value)}})
		case *ast.ExprStmt:
			u, ok := isRecv(y.X)
			if !ok {
				die("bad select case")
			}
			ch := hoist(u.X)
			args = append(args, &ast.CallExpr{Fun: r.vs("RecvCase"), Args: []ast.Expr{ast.NewIdent(ch.Name)}})
		case *ast.AssignStmt:
			u, ok := isRecv(y.Rhs[0])
			if !ok {
				die("bad select case")
			}
			ch := hoist(u.X)
			args = append(args, &ast.CallExpr{Fun: r.vs("RecvCase"), Args: []ast.Expr{ast.NewIdent(ch.Name)}})
			fn := "As"
			if len(y.Lhs) == 2 {
				fn = "As2"
			}
			for i := range y.Lhs {
				y.Lhs[i] = r.expr(y.Lhs[i])
			}
			y.Rhs = []ast.Expr{&ast.CallExpr{Fun: r.vs(fn), Args: []ast.Expr{ast.NewIdent(ch.Name), ast.NewIdent(rv.Name)}}}
			bodyPre = append(bodyPre, y)
		}
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}},
			Body: append(bodyPre, r.stmts(cc.Body)...),
		})
		k++
	}
	args[0] = ast.NewIdent(hasDef)
	pre = append(pre,
		&ast.AssignStmt{Lhs: []ast.Expr{idx, rv}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: r.vs("SelectOp"), Args: args}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(rv.Name)}})
	var sw ast.Stmt = &ast.SwitchStmt{Tag: ast.NewIdent(idx.Name), Body: &ast.BlockStmt{List: clauses}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, sw)}}
}

var vnetOn bool

// callRepl: "pkg.Name" -> shim package, name (from -repl)
var callRepl = map[string][2]string{}

func main() {
	dir := flag.String("dir", "", "module directory")
	out := flag.String("out", "", "output directory")
	overlay := flag.String("overlay", "", "overlay json used when listing packages")
	vnet := flag.Bool("net", false, "route net.Listen/Dial through vnet")
	dbpt := flag.Bool("db", false, "make database/sql calls scheduling points")
	rp := flag.String("repl", "", "pkg.Name=shimpkg.Name,... further replaced selectors")
	race := flag.Bool("race", false, "unused, kept for symmetry")
	flag.Parse()
	_ = race
	vnetOn = *vnet
	for _, x := range strings.Split(*rp, ",") {
		if kv := strings.SplitN(x, "=", 2); len(kv) == 2 {
			i := strings.LastIndex(kv[1], ".")
			callRepl[kv[0]] = [2]string{kv[1][:i], kv[1][i+1:]}
		}
	}
	// packages named with "~" only get -repl and the stand-in for the chain
	pkgs := flag.Args()
	light := map[string]bool{}
	for i, p := range pkgs {
		if strings.HasPrefix(p, "~") {
			pkgs[i] = p[1:]
			light[p[1:]] = true
		}
	}
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Error"}
	if *overlay != "" {
		args = append(args, "-overlay", *overlay)
	}
	args = append(args, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	exports := map[string]string{}
	want := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(o))
	all := map[string]*pkgInfo{}
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("decode: %v", err)
		}
		exports[p.ImportPath] = p.Export
		all[p.ImportPath] = p
	}
	for _, w := range pkgs {
		p := all[w]
		if p == nil {
			die("package %s not found", w)
		}
		want[w] = p
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	result := map[string]string{}
	paths := make([]string, 0, len(want))
	for k := range want {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, ip := range paths {
		p := want[ip]
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, fn, nil, 0)
			if err != nil {
				die("parse %s: %v", fn, err)
			}
			files = append(files, af)
			names = append(names, fn)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}, GoVersion: "go1.21"}
		_, _ = conf.Check(ip, fset, files, info)
		for i, af := range files {
			r := &rewriter{fset: fset, info: info, need: map[string]string{}, dbPt: *dbpt}
			// remember one use of each original import so it stays used
			type imported struct{ name, path string }
			var orig []imported
			for _, is := range af.Imports {
				pth, _ := strconv.Unquote(is.Path.Value)
				if _, ok := repl[pth]; ok || pth == "net" || pth == "github.com/filecoin-project/go-jsonrpc" {
					nm := pth[strings.LastIndex(pth, "/")+1:]
					if nm == "go-jsonrpc" {
						nm = "jsonrpc"
					}
					if is.Name != nil {
						nm = is.Name.Name
					}
					orig = append(orig, imported{nm, pth})
				}
			}
			if light[ip] {
				r.light(af)
			} else {
				for _, d := range af.Decls {
					r.decl(d)
				}
			}
			if r.notes == 0 {
				continue
			}
			var specs []ast.Spec
			var sp []string
			for pth := range r.need {
				sp = append(sp, pth)
			}
			sort.Strings(sp)
			for _, pth := range sp {
				specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(r.need[pth]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(pth)}})
			}
			if len(specs) > 0 {
				af.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1}}, af.Decls...)
			}
			keepers := map[string]string{"sync": "Locker", "time": "Duration", "net": "Conn", "github.com/filecoin-project/go-jsonrpc": "ClientCloser"}
			for _, im := range orig {
				if im.name == "_" || im.name == "." {
					continue
				}
				af.Decls = append(af.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
					Names: []*ast.Ident{ast.NewIdent("_")},
					Type:  &ast.SelectorExpr{X: ast.NewIdent(im.name), Sel: ast.NewIdent(keepers[im.path])},
				}}})
			}
			var buf bytes.Buffer
			buf.WriteString("//go:build go1.21\n\n")
			if err := format.Node(&buf, fset, af); err != nil {
				die("format %s: %v", names[i], err)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(ip, "/", "_"), filepath.Base(names[i]))
			os.MkdirAll(filepath.Dir(dst), 0o755)
			if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			result[names[i]] = dst
		}
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetIndent("", " ")
	enc.Encode(result)
}
