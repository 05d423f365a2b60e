package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

// ---- several processes share the clients of one check ----

// shardDir is where the processes of one check take clients from and leave results;
// "" if there is one process.
var shardDir = os.Getenv("CHECKER_SHARD")

var (
	partDone  int
	partAgain bool
)

// take tells whether this process analyses a client, or one case of it.
func take(task string) bool {
	if shardDir == "" {
		return true
	}
	if partDone == 0 {
		partDone++
	} else {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 1500<<20 {
			// another process, without what this one remembers, goes on
			partAgain = true
			return false
		}
	}
	f, err := os.OpenFile(filepath.Join(shardDir, "task-"+strings.ReplaceAll(task, "/", "_")), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644)
	if err != nil {
		return false
	}
	f.Close()
	return true
}

// Part is what one process found.
type Part struct {
	Obls, Held, Paths, Sites int
	Funcs, Unk, Samples      []string
	Rules, Assume            []string
	Viols                    []Viol
	Counts                   map[string]int
	Again                    bool
	RepoFunctions            int
}

func (c *Ctx) writePart(file string) error {
	p := Part{Obls: c.obls, Held: c.held, Paths: c.paths, Sites: c.sites, Unk: c.unk, Samples: c.samples,
		Rules: c.rules, Assume: c.assume, Viols: c.viols, Counts: c.counts, RepoFunctions: c.repo.funcs, Again: partAgain}
	for f := range c.funcs {
		p.Funcs = append(p.Funcs, f)
	}
	b, err := json.Marshal(p)
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0o644)
}

// sharded runs the check in several processes and joins their results.
func sharded(repo, verif, prop, tier string) (*Ctx, int, error) {
	dir, err := os.MkdirTemp("", "checker")
	if err != nil {
		return nil, 0, err
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	if n > 7 {
		n = 7
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, 0, err
	}
	type worker struct {
		cmd *exec.Cmd
		err error
		i   int
	}
	done := make(chan *worker)
	parts := 0
	start := func(real bool) error {
		i := parts
		cmd := exec.Command(exe, "check", repo, verif, prop, tier)
		cmd.Env = append(os.Environ(), "CHECKER_SHARD="+dir, fmt.Sprintf("CHECKER_PART=%s/part-%d", dir, i), "GOMAXPROCS=2", "GOGC=60",
			fmt.Sprintf("CHECKER_START=%d", started.Unix()))
		parts++
		if real {
			cmd.Env = append(cmd.Env, "CHECKER_REAL=1")
		}
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Start(); err != nil {
			return err
		}
		go func() { done <- &worker{cmd, cmd.Wait(), i} }()
		return nil
	}
	isReal := map[int]bool{}
	for i := 0; i < n; i++ {
		isReal[parts] = prop == "C22" && i >= n/2
		if err := start(isReal[parts]); err != nil {
			return nil, 0, err
		}
	}
	c := newCtx(nil, prop, tier)
	total := 0
	rules := map[string]bool{}
	for ended := 0; ended < parts; ended++ {
		w := <-done
		werr := w.err
		var p Part
		b, err := os.ReadFile(fmt.Sprintf("%s/part-%d", dir, w.i))
		if err == nil {
			err = json.Unmarshal(b, &p)
		}
		if err != nil {
			c.unknown("an analysis process gave no result: %v", werr)
			continue
		}
		total = p.RepoFunctions
		if p.Again {
			isReal[parts] = isReal[w.i]
			if err := start(isReal[parts]); err != nil {
				c.unknown("an analysis process did not start: %v", err)
			}
		}
		c.obls, c.held, c.paths, c.sites = c.obls+p.Obls, c.held+p.Held, c.paths+p.Paths, c.sites+p.Sites
		for _, f := range p.Funcs {
			c.funcs[f] = true
		}
		for _, u := range p.Unk {
			c.unknown("%s", u)
		}
		for _, v := range p.Viols {
			c.obls--
			c.viol(v.Key, v.Where, v.Msg, v.Detail...)
		}
		for _, r := range p.Rules {
			if !rules[r] {
				rules[r] = true
				c.rules = append(c.rules, r)
			}
		}
		for _, a := range p.Assume {
			if !rules[a] {
				rules[a] = true
				c.assume = append(c.assume, a)
			}
		}
		for k, v := range p.Counts {
			c.counts[k] += v
		}
		for _, s := range p.Samples {
			if len(c.samples) < 12 {
				c.samples = append(c.samples, s)
			}
		}
	}
	sort.Strings(c.unk)
	sort.Slice(c.viols, func(i, j int) bool { return c.viols[i].Key < c.viols[j].Key })
	return c, total, nil
}
