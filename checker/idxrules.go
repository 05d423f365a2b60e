package main

func init() {
	for _, p := range []string{"C05", "C06", "C07"} {
		checks[p] = func(c *Ctx) {
			c.rule("every clientAssert for the property in checker/clients/pkg_idxtable.go.txt holds on every abstract path from an arbitrary table (NewTable followed by an unknown history)")
			c.spec("pkg/idxtable", Config{})
		}
	}
}

func init() {
	for _, p := range []string{"C08", "C09"} {
		checks[p] = tableSpecs
	}
	checks["C10"] = func(c *Ctx) {
		c.rule("every clientAssert for the property in checker/clients/pkg_iptable.go.txt holds on every abstract path from an arbitrary table")
		c.spec("pkg/iptable", Config{})
	}
	checks["C11"] = func(c *Ctx) {
		tableSpecs(c)
		c.spec("pkg/iptable", Config{})
		treeSpecs(c)
	}
}

func init() {
	for _, p := range []string{"C12", "C13", "C14"} {
		checks[p] = func(c *Ctx) {
			c.rule("every clientAssert for the property in checker/clients/pkg_tree_idNN.go.txt (and, for C13, pkg_tree.go.txt) holds on every abstract path, for all values and every length of the width")
			if c.prop == "C13" {
				c.spec("pkg/tree", Config{Unroll: 6000})
			}
			for _, w := range []string{"16", "32", "64"} {
				c.spec("pkg/tree/id"+w, Config{Unroll: 3000})
			}
		}
	}
}

func tableSpecs(c *Ctx) {
	c.rule("every clientAssert for the property in checker/clients/pkg_table_tableNN.go.txt holds on every abstract path from an arbitrary table")
	for _, w := range []string{"16", "32", "64"} {
		c.spec("pkg/table/table"+w, Config{})
	}
}

func init() {
	checks["C22"] = func(c *Ctx) {
		if c.repo.model {
			treeSpecs(c)
		} else {
			realTree(c)
		}
	}
	for _, p := range []string{"C23", "C24", "C25", "C27"} {
		checks[p] = treeSpecs
	}
}

func init() {
	checks["C26"] = func(c *Ctx) {
		c.rule("every clientAssert tagged C26 in checker/clients (when an operation fails, and what is true when it does not) holds on every abstract path")
		c.spec("pkg/idxtable", Config{})
		tableSpecs(c)
		c.spec("pkg/iptable", Config{})
		treeSpecs(c)
	}
}

func treeSpecs(c *Ctx) {
	c.rule("every clientAssert for the property in checker/clients/pkg_tree_treeNN.go.txt holds on every abstract path from an arbitrary tree; the radix tree, ID sets and range decomposition below are abstracted by their specification (C15-C22)")
	for _, w := range []string{"16", "32", "64"} {
		c.spec("pkg/tree/tree"+w, Config{IDSpec: true})
	}
}

func init() {
	for _, p := range []string{"C18", "C19", "C20", "C21"} {
		checks[p] = realTree
	}
}

func realTree(c *Ctx) {
	c.rule("every clientAssert for the property in checker/clients/pkg_tree.go.txt holds on every abstract path: labels of any bits, label lengths and tree shapes enumerated")
	c.spec("pkg/tree", Config{Unroll: 6000, MaxOut: 5000000, KeepShl: true, NoPanic: true})
}

func init() {
	idsets := func(cfg Config) func(c *Ctx) {
		return func(c *Ctx) {
			c.rule("every clientAssert for the property in checker/clients/pkg_tree_idNN.go.txt holds on every abstract path")
			for _, w := range []string{"16", "32", "64"} {
				c.spec("pkg/tree/id"+w, cfg)
			}
		}
	}
	checks["C15"] = idsets(Config{Unroll: 3000, MaxOut: 5000000, NoPanic: true, Subst: map[string]string{"Next": "clientForNext", "Prev": "clientForPrev"}})
	checks["C16"] = idsets(Config{Unroll: 3000, MaxOut: 5000000, NoPanic: true, Rec: "clientForRec"})
	checks["C17"] = idsets(Config{Unroll: 3000, MaxOut: 5000000, NoPanic: true, Subst: map[string]string{"normalize": "clientForNormalize", "RangeOfID": "clientForRange"}})
}
