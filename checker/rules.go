package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx collects the result of one property check.
type Ctx struct {
	repo    *Repo
	prop    string
	tier    string
	obls    int
	held    int
	paths   int
	sites   int
	funcs   map[string]bool
	viols   []Viol
	unk     []string
	samples []string
	rules   []string
	counts  map[string]int
	assume  []string
	visited map[*ssa.Function]bool
}

type Viol struct {
	Key    string   `json:"key"`   // stable identity: function and rule
	Where  string   `json:"where"` // file:line
	Msg    string   `json:"what"`
	Detail []string `json:"path,omitempty"`
}

func newCtx(r *Repo, prop, tier string) *Ctx {
	return &Ctx{repo: r, prop: prop, tier: tier, funcs: map[string]bool{}, counts: map[string]int{}}
}

func (c *Ctx) rule(format string, a ...interface{}) {
	c.rules = append(c.rules, fmt.Sprintf(format, a...))
}

func (c *Ctx) ok(format string, a ...interface{}) {
	c.obls++
	c.held++
	if len(c.samples) < 12 && format != "" {
		s := fmt.Sprintf(format, a...)
		for _, x := range c.samples {
			if x == s {
				return
			}
		}
		c.samples = append(c.samples, s)
	}
}

func (c *Ctx) viol(key, where, msg string, detail ...string) {
	c.obls++
	for _, v := range c.viols {
		if v.Key == key {
			return
		}
	}
	c.viols = append(c.viols, Viol{key, where, msg, detail})
}

func (c *Ctx) unknown(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, x := range c.unk {
		if x == s {
			return
		}
	}
	c.unk = append(c.unk, s)
}

func (c *Ctx) fn(f *ssa.Function) { c.funcs[fnName(f)] = true }

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	n := strings.ReplaceAll(f.String(), modPath+"/", "")
	return n
}

func (r *Repo) fnPos(f *ssa.Function) string { return r.pos(f.Pos()) }

// pathDetail renders the decisions of a path for reports.
func pathDetail(st *State) []string {
	var out []string
	for _, l := range st.litOrd {
		out = append(out, fmt.Sprintf("%v: %s", st.lits.get(l), l.show(6)))
	}
	return out
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(dir string) []knownFinding {
	var ks []knownFinding
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	return ks
}

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}

// withModel: properties of the layer above pkg/tree, analysed against its specification.
var withModel = map[string]bool{"C23": true, "C24": true, "C25": true, "C26": true, "C27": true, "C22": true, "C11": true}

// manyClients: analysed by several processes.
var manyClients = map[string]bool{"C06": true, "C10": true, "C13": true, "C15": true, "C16": true, "C17": true, "C18": true, "C19": true, "C20": true, "C21": true, "C22": true, "C23": true, "C24": true, "C25": true, "C26": true, "C27": true}
var minObl = map[string]int{}

func runCheck(repo, verif, prop, tier string) int {
	t0 := time.Now()
	f := checks[prop]
	if f == nil {
		fmt.Println("no check for", prop)
		return 2
	}
	var c *Ctx
	total := 0
	if manyClients[prop] && shardDir == "" && os.Getenv("CHECKER_CLIENT") == "" && os.Getenv("CHECKER_PROF") == "" {
		var err error
		if c, total, err = sharded(repo, verif, prop, tier); err != nil {
			fmt.Println(err)
			return 2
		}
	} else {
		r, err := loadRepo(repo, withModel[prop] && os.Getenv("CHECKER_REAL") == "")
		if err != nil {
			fmt.Println(err)
			return 2
		}
		c, total = newCtx(r, prop, tier), r.funcs
		f(c)
	}
	if part := os.Getenv("CHECKER_PART"); part != "" {
		if err := c.writePart(part); err != nil {
			fmt.Println(err)
			return 2
		}
		return 0
	}
	if c.obls < minObl[prop] && len(c.viols) == 0 {
		// the analysed surface is gone or unreadable: not a pass, not a violation
		c.unknown("only %d obligations were generated, %d expected on the reference tree", c.obls, minObl[prop])
	}
	known := loadKnown(verif)
	var nv []Viol
	for _, v := range c.viols {
		isKnown := false
		for _, k := range known {
			if k.Property == prop && k.Status == "known" && k.Key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				isKnown = true
			}
		}
		if !isKnown {
			nv = append(nv, v)
		}
	}
	var fl []string
	for n := range c.funcs {
		fl = append(fl, n)
	}
	sort.Strings(fl)
	cov := map[string]interface{}{
		"explanation":        "Static analysis of the SSA form of /repo's current source: every listed function was abstractly interpreted on symbolic inputs and state; each obligation is one instance of a rule below at one path, access or result.",
		"rules":              c.rules,
		"functions_analysed": fl,
		"function_count":     len(fl),
		"paths":              c.paths,
		"sites":              c.sites,
		"obligations":        c.obls,
		"discharged":         c.held,
		"samples":            c.samples,
		"undecided":          c.unk,
		"counts":             c.counts,
		"repo_functions":     total,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": envInt("VERIF_SEED"), "level": "other",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(nv),
		"assumptions": append([]string{
			"go/types and golang.org/x/tools/go/ssa represent the source faithfully",
			"standard library and k8s labels functions behave as documented",
			"an obligation listed under undecided was not decided; it raises no alarm",
		}, c.assume...),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, u := range c.unk {
		fmt.Println("undecided:", u)
	}
	fmt.Printf("%s: %d functions, %d paths, %d obligations, %d discharged, %d undecided, %d violations (%.1fs)\n", prop, len(fl), c.paths, c.obls, c.held, len(c.unk), len(nv), time.Since(t0).Seconds())
	rp := filepath.Join(verif, "evidence", prop+".violations.json")
	os.Remove(rp)
	if len(nv) > 0 {
		b, _ := json.MarshalIndent(nv, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		for _, v := range nv {
			fmt.Printf("  %s: %s [%s]\n", v.Where, v.Msg, v.Key)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	return 0
}

func envInt(n string) int {
	v := 0
	fmt.Sscan(os.Getenv(n), &v)
	return v
}

var debug = os.Getenv("CHECKER_DEBUG") != ""

func debugf(f string, a ...interface{}) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
