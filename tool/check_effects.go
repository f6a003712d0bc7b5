package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C20"] = checkC20 }

// reachableFuncs finds the package's functions that a caller of the exported API can reach: static calls, functions used
// as values, and for calls through interfaces the methods of the types that reachable code converts to an interface.
func (p *Prog) reachableFuncs() ([]*ssa.Function, map[*ssa.Function]*ssa.Function) {
	from := map[*ssa.Function]*ssa.Function{}
	var order, work []*ssa.Function
	live := map[types.Type]bool{}
	invoked := map[string]*ssa.Function{}
	add := func(f, by *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 || !p.isOurs(f) {
			return
		}
		if _, ok := from[f]; ok {
			return
		}
		from[f] = by
		order = append(order, f)
		work = append(work, f)
	}
	methods := func(t types.Type, by *ssa.Function, want func(name string) bool) {
		ms := p.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if want(ms.At(i).Obj().Name()) {
				add(p.prog.MethodValue(ms.At(i)), by)
			}
		}
	}
	add(p.pkg.Func("init"), nil)
	for _, m := range p.pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			if token.IsExported(m.Name()) {
				add(m, nil)
			}
		case *ssa.Type:
			if types.IsInterface(m.Type()) || !token.IsExported(m.Name()) {
				continue
			}
			methods(types.NewPointer(m.Type()), nil, token.IsExported)
		}
	}
	convert := func(t types.Type, by *ssa.Function) {
		if live[t] || types.IsInterface(t) {
			return
		}
		live[t] = true
		methods(t, by, func(n string) bool { return invoked[n] != nil || token.IsExported(n) })
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g, f)
					}
				}
				switch in := in.(type) {
				case *ssa.MakeInterface:
					convert(in.X.Type(), f)
				case ssa.CallInstruction:
					if c := in.Common(); c.IsInvoke() && invoked[c.Method.Name()] == nil {
						invoked[c.Method.Name()] = f
						for t := range live {
							methods(t, f, func(n string) bool { return n == c.Method.Name() })
						}
					}
				}
			}
		}
	}
	return order, from
}

// packages of the standard library whose functions have no effect outside what they are given, and those of their
// functions that do
var quietPackages = map[string][]string{
	"bytes": nil, "strings": nil, "errors": nil, "unicode": nil, "unicode/utf8": nil, "unicode/utf16": nil, "slices": nil,
	"maps": nil, "sort": nil, "cmp": nil, "math": nil, "math/bits": nil, "math/big": {"Rand", "Probably"}, "math/cmplx": nil, "strconv": nil,
	"encoding/json": nil, "encoding/binary": nil, "encoding/hex": nil, "encoding/base64": nil, "encoding": nil, "sync/atomic": nil, "container/heap": nil,
	"container/list": nil, "container/ring": nil, "hash/fnv": nil, "hash/crc32": nil, "hash/crc64": nil, "hash/adler32": nil, "hash": nil,
	"io": {"Pipe", "Copy", "CopyBuffer", "CopyN"}, "unsafe": nil, "regexp": nil, "regexp/syntax": nil, "bufio": nil, "text/tabwriter": nil, "unique": nil,
	"sync": {"(*sync.WaitGroup).Go"},
	"fmt":  {"fmt.Print", "fmt.Printf", "fmt.Println", "fmt.Scan", "fmt.Scanf", "fmt.Scanln", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fscan", "fmt.Fscanf", "fmt.Fscanln"},
	"time": {"time.Sleep", "time.After", "time.AfterFunc", "time.NewTimer", "time.NewTicker", "time.Tick", "time.LoadLocation", "(*time.Timer).Reset", "(*time.Ticker).Reset"},
	"iter": {"iter.Pull", "iter.Pull2"},
}

// quiet says if a use of an external function is allowed
func quiet(f *ssa.Function) (bool, string) {
	path := fnPkgPath(f)
	name := f.RelString(nil)
	if o := f.Origin(); o != nil {
		name = o.RelString(nil)
	}
	loud, ok := quietPackages[path]
	if !ok {
		return false, "package " + path + " isn't known to be without effects outside"
	}
	for _, l := range loud {
		if name == l || strings.TrimPrefix(name, path+".") == l || strings.HasSuffix(name, ")."+l) {
			return false, name + " has effects outside"
		}
	}
	return true, ""
}

func checkC20(p *Prog, r *Report) {
	r.rule = "no function that can be reached from the API may start a goroutine, use a channel, print, or refer to a function or variable outside the package which isn't in the list of effect-free ones; no file of the package may import anything but the standard library, or contain assembly, cgo or linkname"
	r.explain = "Reachability is by static calls, functions used as values and, for interface calls, the methods of the types that are converted to an interface in reachable code (rapid type analysis). Each instruction of each reachable function is inspected; a function or variable of another package counts as used even if it's only mentioned."
	r.notCovered = "what flatteners and pattern stores supplied by the user do, and String and Error methods of the X values; reading the clock is allowed"
	fns, from := p.reachableFuncs()
	r.floor("functions reachable from the API", len(fns), 150)
	via := func(f *ssa.Function) string {
		var s []string
		for g, n := f, 0; g != nil && n < 12; g, n = from[g], n+1 {
			s = append(s, p.fname(g))
		}
		return "reached through " + strings.Join(s, " < ")
	}
	uses := map[string]int{}
	nops := 0
	for _, f := range fns {
		bad := 0
		fail := func(in ssa.Instruction, what string) {
			bad++
			r.fail("effect", p.fname(f)+": "+what, p.pos(instrPos(in)), what+"; "+via(f))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				nops++
				switch in := in.(type) {
				case *ssa.Go:
					fail(in, "starts a goroutine")
				case *ssa.MakeChan, *ssa.Send, *ssa.Select:
					fail(in, "uses a channel")
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						fail(in, "uses a channel")
					}
				case *ssa.Store:
					if g := rootGlobal(in.Addr); g != nil && g.Pkg != p.pkg {
						fail(in, "writes the variable "+g.RelString(nil)+" of another package")
					}
				}
				for _, op := range in.Operands(nil) {
					switch g := (*op).(type) {
					case *ssa.Function:
						if p.isOurs(g) || f.Name() == "init" && f.Synthetic != "" && g.Name() == "init" {
							continue
						}
						uses[fnPkgPath(g)]++
						if strings.HasPrefix(fnPkgPath(g), "fmt") && strings.HasPrefix(g.Name(), "Fprint") {
							if c, ok := in.(ssa.CallInstruction); ok && len(c.Common().Args) > 0 && memoryWriter(c.Common().Args[0]) {
								continue
							}
						}
						if ok, why := quiet(g); !ok {
							fail(in, "refers to "+g.RelString(nil)+": "+why)
						}
					case *ssa.Global:
						if g.Pkg != p.pkg {
							if _, ok := quietPackages[g.Pkg.Pkg.Path()]; !ok {
								fail(in, "refers to the variable "+g.RelString(nil))
							}
						}
					case *ssa.Builtin:
						if g.Name() == "print" || g.Name() == "println" {
							fail(in, "prints")
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					m := c.Common().Method
					if m.Pkg() != nil && m.Pkg() != p.pkg.Pkg {
						if _, ok := quietPackages[m.Pkg().Path()]; !ok {
							fail(in, "calls "+m.FullName())
						}
					}
				}
			}
		}
		if bad == 0 {
			r.pass("effect", p.fname(f), p.pos(f.Pos()), "no effects outside the matcher")
		}
	}
	r.facts["instructions inspected"] = nops
	r.facts["uses of other packages"] = uses

	// the files of the package, whatever their build constraints
	ents, err := os.ReadDir(p.repo)
	if err != nil {
		r.fail("files", "directory", "-", err.Error())
		return
	}
	n := 0
	for _, e := range ents {
		name := e.Name()
		switch filepath.Ext(name) {
		case ".s", ".S", ".c", ".cc", ".cpp", ".m", ".h", ".syso", ".swig", ".swigcxx", ".f", ".F", ".for":
			r.fail("files", name, name, "isn't Go")
		}
		if e.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, filepath.Join(p.repo, name), nil, parser.ImportsOnly|parser.ParseComments)
		if err != nil {
			r.fail("files", name, name, err.Error())
			continue
		}
		n++
		bad := ""
		for _, im := range af.Imports {
			path := strings.Trim(im.Path.Value, "\"`")
			first, _, _ := strings.Cut(path, "/")
			if strings.Contains(first, ".") || path == "C" {
				bad = "imports " + path
			}
		}
		src, _ := os.ReadFile(filepath.Join(p.repo, name))
		for _, line := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(line, "//go:linkname") || strings.HasPrefix(line, "//go:cgo") {
				bad = "has " + line
			}
		}
		r.check(bad == "", "files", name, name, iff(bad == "", "imports only the standard library", bad))
	}
	r.floor("files", n, 20)
	mod, err := os.ReadFile(filepath.Join(p.repo, "go.mod"))
	if err != nil {
		r.fail("files", "go.mod", "go.mod", err.Error())
		return
	}
	var reqs []string
	for _, line := range strings.Split(string(mod), "\n") {
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "require") && line != "require (" && line != "require ()" {
			reqs = append(reqs, line)
		}
	}
	// modules that only tests need don't matter to a user; imports of the package's own files were inspected above
	sort.Strings(reqs)
	r.facts["required modules"] = fmt.Sprint(reqs)
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// memoryWriter says if v is a writer that keeps what's written in memory
func memoryWriter(v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	switch mi.X.Type().String() {
	case "*strings.Builder", "*bytes.Buffer":
		return true
	}
	return false
}
