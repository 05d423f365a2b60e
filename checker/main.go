package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	rtdebug "runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	rtdebug.SetGCPercent(400)
	rtdebug.SetMemoryLimit(8 << 30)
	if len(os.Args) > 1 && os.Args[1] == "dump" {
		r, err := loadRepo(os.Args[2], os.Getenv("CHECKER_MODEL") != "")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		t := time.Now()
		for _, n := range os.Args[4:] {
			fn := r.funcByName(os.Args[3], n)
			if fn == nil {
				fmt.Println("no function", n)
				continue
			}
			e := newEngine(r, Config{})
			e.cfg.Hook = func(e *Engine, s *State, n string, f *ssa.Function, args []Val, res types.Type, pos token.Pos) ([]RetState, bool) {
				if strings.HasSuffix(n, ".clientHavoc") {
					e.havoc(s, args[0], "t", nil, "")
					return one(s, TupleV{}), true
				}
				return nil, false
			}
			rs, err := e.analyse(fn, nil, nil)
			fmt.Println("=====", n, err, time.Since(t))
			e.dump(rs)
		}
		return
	}
	if pf := os.Getenv("CHECKER_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
	}
	if len(os.Args) > 5 && os.Args[1] == "check" {
		r := runCheck(os.Args[2], os.Args[3], os.Args[4], os.Args[5])
		pprof.StopCPUProfile()
		os.Exit(r)
	}
	fmt.Println("usage: checker check <repo> <verif> <property> <tier>")
	os.Exit(2)
}
