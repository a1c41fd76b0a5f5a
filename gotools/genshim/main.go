// genshim completes the hand-written shims of /verif/sim/shim: every exported
// name of the standard package that the shim does not define is re-exported,
// except functions that would touch the real machine, which become stubs that
// stop the simulation.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// guarded packages: functions not listed here and not overridden become stubs.
var guarded = map[string]map[string]bool{
	"os":            set("Expand IsExist IsNotExist IsPermission IsTimeout IsPathSeparator NewSyscallError"),
	"os/exec":       set(""),
	"os/signal":     set(""),
	"net":           set("CIDRMask IPv4 IPv4Mask JoinHostPort ParseCIDR ParseIP ParseMAC SplitHostPort TCPAddrFromAddrPort UDPAddrFromAddrPort"),
	"net/http":      set("NewRequest StatusText CanonicalHeaderKey DetectContentType ParseTime ParseHTTPVersion NoBody MaxBytesReader NotFoundHandler NewServeMux Error NotFound Redirect StripPrefix"),
	"path/filepath": set("Base Clean Dir Ext FromSlash HasPrefix IsAbs IsLocal Join Match Rel Split SplitList ToSlash VolumeName Localize"),
	"io/ioutil":     set(""),
	"time":          set("Date FixedZone LoadLocation LoadLocationFromTZData Parse ParseDuration ParseInLocation Unix UnixMicro UnixMilli"),
	"sync":          set(""),
	"context":       set(""),
	"runtime":       set("Caller Callers CallersFrames FuncForPC GOROOT KeepAlive MemProfile NumCPU ReadMemStats SetFinalizer Stack Version"),
	"log":           set("New"),
}

// names that would reach the real machine through a re-exported variable or type
var drop = map[string]bool{"net/http.DefaultTransport": false}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

var pkgs = []string{"os", "os/exec", "os/signal", "net", "net/http", "path/filepath", "io/ioutil", "io", "time", "sync", "context", "fmt", "math/rand", "crypto/rand", "runtime", "log"}

func main() {
	root := os.Args[1] // /verif/sim/shim
	shimmed := map[string]bool{}
	for _, p := range pkgs {
		shimmed[p] = true
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "source", nil)
	for _, path := range pkgs {
		dir := filepath.Join(root, path)
		have := map[string]bool{}
		ents, err := os.ReadDir(dir)
		check(err)
		name := filepath.Base(path)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "zz_reexport.go" {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
			check(err)
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		pkg, err := imp.Import(path)
		check(err)
		allow, guard := guarded[path]
		imports := map[string]string{}
		self := false
		qual := func(p *types.Package) string {
			if p == pkg {
				return ""
			}
			ip := p.Path()
			if shimmed[ip] {
				ip = "alda.sim/shim/" + ip
			}
			alias := "x_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(ip)
			imports[alias] = ip
			return alias
		}
		var body bytes.Buffer
		names := pkg.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			o := pkg.Scope().Lookup(n)
			if !o.Exported() || have[n] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				self = true
				fmt.Fprintf(&body, "const %s = real.%s\n", n, n)
			case *types.Var:
				if path == "os" && (n == "Args" || strings.HasPrefix(n, "Std")) {
					continue
				}
				self = true
				fmt.Fprintf(&body, "var %s = real.%s\n", n, n)
			case *types.TypeName:
				if hasTP(o.Type()) {
					continue
				}
				self = true
				fmt.Fprintf(&body, "type %s = real.%s\n", n, n)
			case *types.Func:
				sig := o.Type().(*types.Signature)
				if sig.TypeParams() != nil {
					continue
				}
				if strings.Contains(types.TypeString(sig, nil), "internal/") {
					continue
				}
				if !guard || allow[n] {
					self = true
					fmt.Fprintf(&body, "var %s = real.%s\n", n, n)
					continue
				}
				s := types.TypeString(sig, qual)
				fmt.Fprintf(&body, "func %s%s { panic(\"simulation: %s.%s is not modelled\") }\n", n, strings.TrimPrefix(s, "func"), path, n)
			}
		}
		var out bytes.Buffer
		fmt.Fprintf(&out, "// Code generated by genshim; DO NOT EDIT.\n\npackage %s\n\nimport (\n", name)
		if self {
			fmt.Fprintf(&out, "real %q\n", path)
		}
		var as []string
		for a := range imports {
			as = append(as, a)
		}
		sort.Strings(as)
		for _, a := range as {
			fmt.Fprintf(&out, "%s %q\n", a, imports[a])
		}
		out.WriteString(")\n\n")
		out.Write(body.Bytes())
		src, err := format.Source(out.Bytes())
		if err != nil {
			os.Stdout.Write(out.Bytes())
		}
		check(err)
		check(os.WriteFile(filepath.Join(dir, "zz_reexport.go"), src, 0644))
	}
}

func hasTP(t types.Type) bool {
	switch t := t.(type) {
	case *types.Named:
		return t.TypeParams().Len() > 0
	case *types.Alias:
		return t.TypeParams().Len() > 0
	}
	return false
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "genshim:", err)
		os.Exit(1)
	}
}
