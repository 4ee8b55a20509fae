package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Effects of the library packages (everything but the command line program
// and the clients of the network), decided instruction by instruction on the
// SSA form of all their functions: what is read besides the arguments, what is
// written besides the results.

var cliPkgs = map[string]bool{"": true, "facade": true, "facade/clipboard": true, "hkp": true, "github": true}

func pkgRel(fn *ssa.Function) (string, bool) {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			p := f.Pkg.Pkg.Path()
			if !isRepoPath(p) {
				return "", false
			}
			return strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/"), true
		}
	}
	return "", false
}

// repoFunctions: all functions with a body in the repository's packages.
func (p *Program) repoFunctions() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		if _, ok := pkgRel(fn); ok && len(fn.Blocks) > 0 && (fn.Synthetic == "" || fn.Name() == "init") {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, k int) bool {
		a, b := out[i], out[k]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return out
}

// denied: what a function of the library must not call. The key is a package
// path or package path + function; the value is the property it breaks.
type denial struct {
	props string
	what  string
}

func libDenied(pkg, name, full string) *denial {
	switch pkg {
	case "net", "net/http", "net/rpc", "net/smtp", "net/textproto", "crypto/tls", "net/http/httputil":
		return &denial{"C13", "uses the network"}
	case "os/exec", "plugin", "os/signal", "os/user":
		return &denial{"C13", "uses the system"}
	case "syscall", "golang.org/x/sys/unix":
		return &denial{"C13", "calls the system directly"}
	case "math/rand", "math/rand/v2", "crypto/rand":
		return &denial{"C09", "depends on random numbers"}
	case "log", "log/slog":
		if strings.HasPrefix(name, "New") {
			return nil
		}
		return &denial{"C13", "writes to the error output"}
	case "github.com/atotto/clipboard":
		return &denial{"C13", "uses the clipboard"}
	case "github.com/spiegel-im-spiegel/fetch":
		return &denial{"C13", "uses the network"}
	case "io/ioutil":
		switch name {
		case "ReadAll", "NopCloser":
			return nil
		}
		return &denial{"C13", "uses the file system"}
	case "os":
		switch name {
		case "Getenv", "LookupEnv", "Environ", "ExpandEnv", "Getpid", "Getppid", "Hostname", "Getwd", "Getuid", "Executable", "UserHomeDir", "TempDir", "Getpagesize":
			return &denial{"C09", "depends on the environment of the process"}
		case "IsNotExist", "IsExist", "IsPermission", "IsTimeout", "NewSyscallError":
			return nil
		case "Exit":
			return &denial{"C03,C13", "ends the process"}
		}
		return &denial{"C13", "uses the file system"}
	case "time":
		switch name {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc", "Sleep":
			return &denial{"C09", "depends on the clock"}
		}
	case "fmt":
		switch name {
		case "Print", "Printf", "Println":
			return &denial{"C13", "writes to the standard output"}
		case "Scan", "Scanf", "Scanln":
			return &denial{"C13", "reads the standard input"}
		}
	case "runtime":
		switch name {
		case "NumGoroutine", "NumCPU", "GOMAXPROCS", "ReadMemStats", "Stack":
			return &denial{"C09", "depends on the state of the process"}
		case "Goexit":
			return &denial{"C03", "ends the goroutine"}
		}
	case "hash/maphash":
		return &denial{"C09", "depends on a seed of the process"}
	}
	return nil
}

// cliDenied: what the command line program must not do at all.
func cliDenied(pkg, name string) *denial {
	switch pkg {
	case "net", "net/http", "net/rpc", "net/smtp", "crypto/tls":
		switch name {
		case "JoinHostPort", "SplitHostPort", "ParseIP", "StatusText", "CanonicalHeaderKey", "ParseCIDR":
			return nil
		}
		return &denial{"C13", "uses the network beside the requests of the commands"}
	case "os/exec", "plugin", "syscall", "golang.org/x/sys/unix":
		return &denial{"C13", "uses the system"}
	case "os":
		switch name {
		case "Create", "OpenFile", "WriteFile", "Remove", "RemoveAll", "Rename", "Mkdir", "MkdirAll", "MkdirTemp", "CreateTemp", "Truncate", "Chmod", "Chown", "Link", "Symlink", "Setenv", "Unsetenv", "Clearenv", "Chdir", "Chtimes", "StartProcess":
			return &denial{"C13", "changes the file system or the process"}
		}
	case "io/ioutil":
		switch name {
		case "WriteFile", "TempFile", "TempDir":
			return &denial{"C13", "changes the file system"}
		}
	case "math/rand", "math/rand/v2", "crypto/rand":
		return &denial{"C09", "depends on random numbers"}
	}
	return nil
}

// globalRoot: the package variable an address or value comes from.
func globalRoot(v ssa.Value, depth int) *ssa.Global {
	if depth > 12 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalRoot(x.X, depth+1)
	case *ssa.IndexAddr:
		return globalRoot(x.X, depth+1)
	case *ssa.Slice:
		return globalRoot(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
				return globalRoot(x.X, depth+1)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := globalRoot(e, depth+4); g != nil {
				return g
			}
		}
	case *ssa.ChangeType:
		return globalRoot(x.X, depth+1)
	}
	return nil
}

var mutableTypes = map[string]bool{
	"bytes.Buffer": true, "strings.Builder": true, "bufio.Reader": true, "bufio.Writer": true, "bufio.Scanner": true,
	"sync.Map": true, "sync.Pool": true, "container/list.List": true, "container/ring.Ring": true, "math/big.Int": true,
	"sync/atomic.Int32": true, "sync/atomic.Int64": true, "sync/atomic.Value": true, "sync/atomic.Bool": true, "sync/atomic.Uint64": true, "sync/atomic.Uint32": true,
	"bytes.Reader": true, "strings.Reader": true,
}

var syncOnly = map[string]bool{"sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true}

func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func effectsJob(in *Interp, rep *reporter) {
	p := in.p
	fns := p.repoFunctions()
	bad := func(fn *ssa.Function, pos token.Pos, props, kind, detail string) {
		rep.add(finding{Props: strings.Split(props, ","), Kind: kind, Pos: p.pos(pos), Fn: in.fnName(fn), Detail: detail})
	}
	for _, fn := range fns {
		rel, _ := pkgRel(fn)
		lib := !cliPkgs[rel]
		initFn := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		if lib {
			rep.stat("library functions", 1)
		} else {
			rep.stat("program functions", 1)
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				rep.stat("instructions", 1)
				switch x := ins.(type) {
				case *ssa.Go:
					if lib {
						bad(fn, x.Pos(), "C09", "goroutine", "a goroutine is started: the result can depend on the schedule")
					}
				case *ssa.Select, *ssa.Send:
					if lib {
						bad(fn, ins.Pos(), "C09", "channel", "a channel is used: the result can depend on the schedule")
					}
				case *ssa.Store:
					if lib && !initFn {
						if g := globalRoot(x.Addr, 0); g != nil {
							bad(fn, x.Pos(), "C09", "package variable written", "the variable "+g.Name()+" outlives the call: later results depend on earlier input")
						}
					}
				case *ssa.MapUpdate:
					if lib && !initFn {
						if g := globalRoot(x.Map, 0); g != nil {
							bad(fn, x.Pos(), "C09", "package variable written", "the map "+g.Name()+" outlives the call: later results depend on earlier input")
						}
					}
				case *ssa.Convert:
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						bad(fn, x.Pos(), "C09,C22", "unsafe", "conversion to unsafe.Pointer")
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					in.callEffects(rep, fn, c.Common(), c.Pos(), lib, initFn, bad)
				}
			}
		}
	}
	// what is shared between parsers: package variables of mutable type
	rep.stat("roots", 1)
}

func (in *Interp) callEffects(rep *reporter, fn *ssa.Function, c *ssa.CallCommon, pos token.Pos, lib, initFn bool, bad func(fn *ssa.Function, pos token.Pos, props, kind, detail string)) {
	rep.stat("call sites", 1)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "print", "println":
			if lib {
				bad(fn, pos, "C13", "effect", "writes to the error output")
			}
		case "delete", "copy", "clear":
			if lib && !initFn && len(c.Args) > 0 {
				if g := globalRoot(c.Args[0], 0); g != nil {
					bad(fn, pos, "C09", "package variable written", b.Name()+" changes "+g.Name())
				}
			}
		}
		return
	}
	callee := c.StaticCallee()
	if callee == nil {
		return
	}
	if callee.Pkg == nil && callee.Object() == nil {
		return
	}
	pkg := ""
	if callee.Pkg != nil {
		pkg = callee.Pkg.Pkg.Path()
	} else if callee.Object().Pkg() != nil {
		pkg = callee.Object().Pkg().Path()
	}
	if isRepoPath(pkg) {
		return
	}
	name := callee.Name()
	var d *denial
	if lib {
		d = libDenied(pkg, name, callee.String())
	} else {
		d = cliDenied(pkg, name)
	}
	if d != nil {
		bad(fn, pos, d.props, "effect", "the call of "+pkg+"."+name+" "+d.what)
	}
	if !lib || initFn {
		return
	}
	for i, a := range c.Args {
		g := globalRoot(a, 0)
		if g == nil {
			continue
		}
		tn := typeName(a.Type())
		if a == ssa.Value(g) && !syncOnly[tn] || mutableTypes[tn] && i == 0 {
			if isRepoPath(g.Pkg.Pkg.Path()) {
				bad(fn, pos, "C09", "package variable written", callee.String()+" can change "+g.Name()+", which outlives the call")
			}
		}
	}
	// the standard streams as arguments
	for _, a := range c.Args {
		if g := stdStream(a); g != "" {
			bad(fn, pos, "C13", "effect", callee.String()+" is given os."+g)
		}
	}
}

func stdStream(v ssa.Value) string {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" {
				switch g.Name() {
				case "Stdout", "Stderr", "Stdin", "Args":
					return g.Name()
				}
			}
		}
		return ""
	}
	return ""
}

func init() { otherJobs["effects"] = effectsJob }

// reversed runs a job with the ranges over maps in the opposite order, and
// again in the usual order if there were any: a difference means that the
// result depends on the order in which a map is traversed.
func (in *Interp) reversed(j string) *jobResult {
	in.mapRev = true
	r := in.runJob(j)
	in.mapRev = false
	var ranges []string
	for pos, fn := range in.mapRanges {
		ranges = append(ranges, pos+" "+fn)
	}
	sort.Strings(ranges)
	out := &jobResult{Job: "rev." + j, Stats: map[string]int{"roots": 1}, Fns: r.Fns, Err: r.Err, Ms: r.Ms}
	for _, f := range r.Findings {
		if hasProp(f.Props, "C09") {
			out.Findings = append(out.Findings, f)
		}
	}
	if len(ranges) == 0 {
		return out
	}
	out.Stats["jobs with ranges over maps"] = 1
	key := func(r *jobResult) map[string]bool {
		m := map[string]bool{}
		for _, f := range r.Findings {
			m[f.Kind+f.Detail] = true
		}
		return m
	}
	r2 := in.runJob(j)
	out.Ms += r2.Ms
	if r.Err != "" || r2.Err != "" {
		out.Err = r.Err + r2.Err
		return out
	}
	a, b := key(r), key(r2)
	for _, rr := range []*jobResult{r, r2} {
		for _, f := range rr.Findings {
			k := f.Kind + f.Detail
			if f.Und || a[k] && b[k] {
				continue
			}
			f.Props = []string{"C09"}
			f.Kind = "order of a map: " + f.Kind
			f.Detail = "depends on the order in which the map is traversed at " + strings.Join(ranges, ", ") + ": " + f.Detail
			out.Findings = append(out.Findings, f)
		}
	}
	return out
}
