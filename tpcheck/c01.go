package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Calls that end the process, deliberate panics and writes on the standard streams are searched in every live function reachable from the public API.", runC01)
}

func runC01(p *Program, r *Report) {
	r.rule("no live instruction of a function reachable from an exported function or an initialiser panics explicitly, calls os.Exit / log.Fatal* / log.Panic* / runtime.Goexit, or writes on standard output; blocks guarded by a false constant are dead")
	reach := p.apiReachable()
	for _, fn := range p.Funcs {
		if !reach[fn] {
			continue
		}
		r.count("functions", 1)
		p.eachInstr(fn, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Panic:
				r.count("explicit panics", 1)
				r.find("explicit-panic", fname(fn), p.pos(in.Pos()), "%s panics deliberately and is reachable from the public API", fname(fn))
			case ssa.CallInstruction:
				r.count("calls", 1)
				cal := in.Common().StaticCallee()
				if cal == nil {
					if b, ok := in.Common().Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
						r.find("stdout", fname(fn)+"/"+b.Name(), p.pos(in.Pos()), "%s writes on the standard streams", fname(fn))
					}
					return
				}
				if o, ok := cal.Object().(*types.Func); ok && o.Pkg() != nil {
					switch full := o.FullName(); full {
					case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit", "syscall.Exit", "syscall.Kill",
						"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
						r.find("terminates", fname(fn)+"/"+full, p.pos(in.Pos()), "%s calls %s and is reachable from the public API", fname(fn), full)
					case "regexp.MustCompile", "regexp.MustCompilePOSIX", "text/template.Must", "html/template.Must":
						// deliberate panics, unless given what the program itself contains
						if _, ok := in.Common().Args[0].(*ssa.Const); !ok {
							r.find("terminates", fname(fn)+"/"+full, p.pos(in.Pos()), "%s calls %s on a computed value: it panics when it is not valid", fname(fn), full)
						}
					case "os.NewFile":
						if isIntConst(in.Common().Args[0], 1) {
							r.find("stdout", fname(fn)+"/"+full, p.pos(in.Pos()), "%s opens the standard output", fname(fn))
						}
					case "fmt.Print", "fmt.Println", "fmt.Printf", "syscall.Write", "syscall.Dup2", "syscall.Dup3":
						r.find("stdout", fname(fn)+"/"+full, p.pos(in.Pos()), "%s writes on standard output through %s", fname(fn), full)
					}
				}
			}
			var rands [16]*ssa.Value
			for _, op := range in.Operands(rands[:0]) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stdout" {
					r.find("stdout", fname(fn)+"/os.Stdout", p.pos(in.Pos()), "%s uses os.Stdout", fname(fn))
				}
			}
		})
	}
	r.need("functions", r.Counts["functions"], 600)
}
