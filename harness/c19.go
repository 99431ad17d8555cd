package main

import "os"

func init() {
	register(&Property{ID: "C19",
		Rule: "Template files are generated from a grammar that covers every node kind of Go templates (text, comments, actions, pipelines, assignments, nested parentheses, field, variable, method, function and pipe chains, the call builtin, if/else if/else, range/else with break and continue, with/else with, template, block, define, trim markers, several delimiters, blanks and line breaks inside actions), while the generator records which calls have literals at all designated positions. The real xtemplate command runs on them and its output, read by an independent PO parser, must list exactly the recorded (context, id, plural) with exactly the recorded locations. Non-trivial: distinct templates with at least one call to extract.",
		Assumptions: []string{"texts hold no NUL or EOT (the separators of the MO format)",
			"a message used both with and without plural is only required to be listed once, in one of the two ways"},
		Sections: []Section{
			{Name: "templates", Quick: 15000, Thorough: 120000, Fn: func(c *C) { c19(c, 1) }, Need: []string{"calls in templates", "calls not to be extracted"}},
			{Name: "several files", Quick: 5000, Thorough: 30000, Fn: func(c *C) { c19(c, 2+c.Intn(4)) }, Need: []string{"calls in templates"}},
		}})
}

func c19(c *C, nfiles int) {
	kws := append([]xkw(nil), xconventional...)
	c.Shuffle(len(kws), func(i, j int) { kws[i], kws[j] = kws[j], kws[i] })
	kws = kws[:1+c.Intn(len(kws))]
	x := xmake(c, kws, nfiles)
	defer os.RemoveAll(x.dir)
	var more []string
	if c.Intn(4) == 0 {
		more = append(more, "-f", "foo, tr ,Bar,,unused")
	}
	r := xrun(c, x.dir, nil, nil, x.args(more...)...)
	if r.code != 0 {
		c.Fail("exit", "exit %d: %s\n%s", r.code, r.err, x.show())
	}
	if d := x.compare(r.out); d != "" {
		c.Fail("extraction", "%s\n%s\n--- output\n%s", d, x.show(), r.out)
	}
	if len(x.want) > 0 {
		c.Distinct(x.srcs...)
		c.Count("messages", len(x.want))
	}
}
