package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/mewmew/typast/typst/syntax"
)

// --- update-typ --------------------------------------------------------------

var (
	ansi       = regexp.MustCompile("\x1b\\[[0-9;]*m")
	libMessage = regexp.MustCompile(`in library "([^"\n]*)", update needed for ("(?:[^"\\\n]|\\.)*"):\s*new version "([^"\n]*)"\s*old version "([^"\n]*)"`)
)

func versionLess(a, b string) bool {
	var x, y [3]uint64
	fmt.Sscanf(a, "%d.%d.%d", &x[0], &x[1], &x[2])
	fmt.Sscanf(b, "%d.%d.%d", &y[0], &y[1], &y[2])
	return slices.Compare(x[:], y[:]) < 0
}

var someVersions = []string{"0.1.0", "0.1.2", "0.2.0", "0.9.0", "0.10.0", "0.10.1", "0.9.9", "1.0.0", "1.0.9", "1.0.10", "1.2.0", "1.10.0", "2.0.0", "9.0.0", "10.0.0",
	"10.0.1", "0.0.1", "0.0.10", "0.0.9", "3.99.100", "4000000000.0.0", "0.4000000000.1", "256.0.0", "0.65536.0"}

func updateCase(c *Case) {
	w := newWorld(c)
	defer w.close()
	var env, args []string
	cache := "home/.cache"
	if c.IntN(3) == 0 {
		cache = "cache2"
		env = append(env, "XDG_CACHE_HOME="+filepath.Join(w.dir, cache))
	}
	universe := c.IntN(2) == 0
	if universe {
		args = append(args, "-universe", []string{"uni", filepath.Join(w.dir, "w/uni")}[c.IntN(2)])
	}

	// Packages, in several versions.
	var all []pkgRef
	latest, latestIn := map[pkgRef]pkgRef{}, map[pkgRef]pkgRef{}
	mixed := false
	where := map[pkgRef]string{}
	for i, n := 0, c.IntN(5); i < n; i++ {
		p := pkgRef{[]string{"preview", "local", "preview"}[c.IntN(3)], fmt.Sprintf("pkg-%c", 'a'+i), ""}
		var have []pkgRef
		base := c.IntN(2) == 0
		mix := c.IntN(5) == 0
		for k := 1 + c.IntN(4); k > 0; k-- {
			v := p
			if mix && c.IntN(2) == 0 {
				v.ns = []string{"preview", "local"}[c.IntN(2)]
			}
			v.version = someVersions[c.IntN(len(someVersions))]
			if base {
				v.version = fmt.Sprintf("%d.%d.%d", c.IntN(3), 8+c.IntN(4), c.IntN(12))
			}
			if !slices.ContainsFunc(have, func(o pkgRef) bool { return o.version == v.version }) {
				have = append(have, v)
			}
		}
		// NOTE: a package is either what has its name, or what has its name
		// in one namespace; the newest version of both is accepted.
		best, bestIn := have[0], map[string]pkgRef{}
		for _, v := range have {
			if versionLess(best.version, v.version) {
				best = v
			}
			if o, ok := bestIn[v.ns]; !ok || versionLess(o.version, v.version) {
				bestIn[v.ns] = v
			}
		}
		if len(bestIn) > 1 {
			mixed = true
			c.Cover("a name in two namespaces")
		}
		for _, v := range have {
			latest[v] = best
			latestIn[v] = bestIn[v.ns]
			dir := filepath.Join(cache, "typst/packages/preview")
			if v.ns == "local" {
				dir = "home/.local/share/typst/packages/local"
			} else if universe && c.IntN(2) == 0 {
				dir = "w/uni/packages/preview"
			}
			where[v] = filepath.Join(dir, v.name, v.version)
		}
		all = append(all, have...)
		c.CoverN("installed versions", len(have))
	}
	roots := map[pkgRef]*fileRoot{}
	for i := range all {
		roots[all[i]] = genRoot(c, &all[i], all, 1, true)
	}
	proj := genRoot(c, nil, all, 3, true)
	for i, p := range all {
		switch c.IntN(6) {
		case 0: // linked
			store := fmt.Sprintf("store/v%d", i)
			w.install(roots[p], store)
			w.link(where[p], filepath.Join(w.dir, store))
			c.Cover("linked version folders")
		default:
			w.install(roots[p], where[p])
		}
		if c.IntN(3) == 0 { // unrelated entries next to it
			dir := filepath.Dir(where[p])
			junk := []string{"README.md", "99.0.0.bak/x", ".git/config", "latest/typst.toml", "v99.0.0/typst.toml", "99.0/typst.toml", "99.0.0-beta.1/typst.toml", "99/x", "99.0.0.0/x", "a.b.c/x", "99.0.1", "99.0.2",
				"99.0.3"}[c.IntN(13)]
			if _, err := os.Lstat(filepath.Join(w.dir, dir, junk)); err != nil {
				switch junk {
				case "99.0.2":
					w.link(filepath.Join(dir, junk), "nothing")
				case "99.0.3":
					w.link(filepath.Join(dir, junk), "../../../../../../../passwd")
				default:
					w.file(filepath.Join(dir, junk), "junk")
				}
				c.Cover("unrelated entries")
			}
		}
	}
	w.install(proj, "w/proj")
	w.file("w/proj/unused.typ", "#import \"nope.typ\"")

	// What must come out.
	update := func(f *typFile) (string, int) {
		var b strings.Builder
		n := 0
		for _, s := range f.segs {
			if s.pkg != nil && latest[*s.pkg] != *s.pkg {
				b.WriteString(`"` + latest[*s.pkg].String() + `"`)
				n++
			} else {
				b.WriteString(s.text)
			}
		}
		return b.String(), n
	}
	want := map[string]string{}
	replaced := 0
	var direct []pkgRef
	plan := func() {
		replaced, direct = 0, nil
		for _, n := range proj.reach() {
			text, k := update(proj.typ[n])
			want[n] = text
			replaced += k
			direct = append(direct, proj.typ[n].pkgs...)
		}
	}
	plan()
	closure := func(next func(pkgRef) pkgRef) map[pkgRef]bool {
		seen := map[pkgRef]bool{}
		var rec func(p pkgRef)
		rec = func(p pkgRef) {
			if p = next(p); seen[p] {
				return
			}
			seen[p] = true
			for _, n := range roots[p].reach() {
				for _, q := range roots[p].typ[n].pkgs {
					rec(q)
				}
			}
		}
		for _, p := range direct {
			rec(p)
		}
		return seen
	}
	written := closure(func(p pkgRef) pkgRef { return p })
	updated := closure(func(p pkgRef) pkgRef { return latest[p] })
	type report struct{ lib, file, new, old string }
	must, may := map[report]bool{}, map[report]bool{}
	reports := func() {
		written = closure(func(p pkgRef) pkgRef { return p })
		updated = closure(func(p pkgRef) pkgRef { return latest[p] })
		for _, p := range all {
			for _, n := range roots[p].reach() {
				for _, q := range roots[p].typ[n].pkgs {
					if latest[q] != q {
						r := report{p.String(), n, latest[q].String(), q.String()}
						if written[p] || updated[p] {
							may[r] = true
						}
						if written[p] && updated[p] {
							must[r] = true
						}
					}
				}
			}
		}
	}

	// How it is called.
	inplace := c.IntN(3) == 0
	out := "w/out"
	if inplace {
		args = append(args, "-i")
		out = "w/proj"
	} else if c.IntN(2) == 0 {
		out = "w/new/x"
		args = append(args, "-out", []string{"new/x", filepath.Join(w.dir, out)}[c.IntN(2)])
	}
	if filepath.Dir(proj.entry) != "." || c.IntN(2) == 0 {
		args = append(args, "-root", []string{"proj", "./proj/", filepath.Join(w.dir, "w/proj")}[c.IntN(3)])
	}
	if c.IntN(4) == 0 {
		args = append(args, "-v")
	}
	args = append(args, []string{"proj/" + proj.entry, filepath.Join(w.dir, "w/proj", proj.entry)}[c.IntN(2)])

	broken := ""
	if c.IntN(6) == 0 && !mixed {
		type victim struct{ path, what string }
		var vs []victim
		for _, n := range proj.reach() {
			if n != proj.entry {
				vs = append(vs, victim{"w/proj/" + n, "a Typst file is missing"})
			}
		}
		for _, p := range all {
			if !written[p] || !updated[p] {
				continue
			}
			for _, n := range roots[p].reach() {
				vs = append(vs, victim{filepath.Join(where[p], n), "a Typst file of a package is missing"})
			}
			vs = append(vs, victim{filepath.Join(where[p], "typst.toml"), "a manifest is missing"})
		}
		if len(vs) > 0 {
			v := vs[c.IntN(len(vs))]
			os.Remove(filepath.Join(w.dir, v.path))
			broken = v.what + ": " + v.path
			fmt.Fprintf(&w.log, "remove %s\n", v.path)
		}
	}
	obstacle := ""
	if broken == "" && c.IntN(6) == 0 {
		obstacle = w.obstruct(c, out, sortedKeys(want), inplace)
	} else if !inplace && c.IntN(6) == 0 {
		w.stale(c, out, want)
	}
	before := w.snapshot("")
	r := w.run("w", env, "update-typ", args...)
	after := w.snapshot("")
	if obstacle != "" && r.code != 0 {
		for n := range after {
			if text, ok := want[strings.TrimPrefix(n, out+"/")]; strings.HasPrefix(n, out+"/") && (after[n] == before[n] || ok && after[n] == text || !inplace) {
				delete(after, n)
				delete(before, n)
			}
		}
		for n := range before {
			if strings.HasPrefix(n, out+"/") && !inplace {
				delete(before, n)
			}
		}
		sameFiles(c, "after a failed update", after, before)
		c.Cover("output that cannot be written reported")
		return
	}
	if broken != "" {
		c.Eval(1)
		if r.code == 0 {
			c.Fail("%s, but the command succeeds\n%s", broken, tail(r.stderr))
		}
		for n := range after {
			if strings.HasPrefix(n, out+"/") {
				delete(after, n)
			}
		}
		for n := range before {
			if strings.HasPrefix(n, out+"/") {
				delete(before, n)
			}
		}
		sameFiles(c, "outside of the output folder", after, before)
		c.Cover("failures reported")
		return
	}
	if r.code != 0 {
		c.Fail("exit status %d:\n%s", r.code, tail(r.stderr))
	}
	if mixed {
		for n, text := range want {
			if after[filepath.Join(out, n)] != text {
				latest = latestIn
				plan()
				c.Cover("updated within the namespace")
				break
			}
		}
	}
	reports()
	expect := before
	for n, text := range want {
		expect[filepath.Join(out, n)] = text
	}
	sameFiles(c, "after updating", after, expect)

	// What it says.
	msg := ansi.ReplaceAllString(r.stderr+r.stdout, "")
	said := map[report]bool{}
	for _, m := range libMessage.FindAllStringSubmatch(msg, -1) {
		f, err := strconv.Unquote(m[2])
		if err != nil {
			c.Fail("reported the file %s", m[2])
		}
		rep := report{m[1], f, m[3], m[4]}
		said[rep] = true
		c.Eval(1)
		if !may[rep] {
			c.Fail("reported %+v, which is not so\n%s", rep, tail(msg))
		}
		c.Cover("stale dependencies of packages reported")
	}
	for rep := range must {
		c.Eval(1)
		if !said[rep] {
			c.Fail("not reported: %+v\n%s", rep, tail(msg))
		}
	}
	if strings.Contains(msg, "update needed for transitive dependencies") != (len(said) > 0) {
		c.Fail("summary about transitive dependencies is wrong (%d stale)\n%s", len(said), tail(msg))
	}
	if strings.Contains(msg, "updated project Typst files") != (replaced > 0) {
		c.Fail("summary about project files is wrong (%d imports replaced)\n%s", replaced, tail(msg))
	}
	if replaced > 0 {
		c.Cover("updated projects")
		c.CoverN("imports updated", replaced)
	} else if len(direct) > 0 {
		c.Cover("projects that are up to date")
	}

	// Doing it again changes nothing.
	if c.IntN(3) == 0 {
		var args2 []string
		if universe {
			args2 = append(args2, "-universe", "uni")
		}
		args2 = append(args2, "-out", "again", "-root", filepath.Join(w.dir, out), filepath.Join(w.dir, out, proj.entry))
		r := w.run("w", env, "update-typ", args2...)
		if r.code != 0 {
			c.Fail("updating again: exit status %d:\n%s", r.code, tail(r.stderr))
		}
		if strings.Contains(r.stderr+r.stdout, "updated project Typst files") {
			c.Fail("updating again still finds something to update\n%s", tail(r.stderr))
		}
		sameFiles(c, "second update", w.snapshot("w/again"), want)
		c.Cover("updated again")
	}
	if inplace {
		c.Cover("in place")
	}
	for _, t := range want {
		if countErrors(syntax.Parse(t)) > 0 {
			c.Fail("a rewritten file does not parse: %q", t)
		}
	}
	c.Distinct(c.Input)
	if len(c.Input) < 900 && replaced > 0 {
		c.Sample(c.Input)
	}
}

func init() {
	register(&Prop{
		ID:   "P24",
		Rule: "an updated project counts by its files, the installed packages and the command line; an arbitrary text by itself",
		Groups: []Group{
			{Name: "projects", Quick: 900, Thorough: 25000, Run: updateCase},
			{Name: "arbitrary", Quick: 400, Thorough: 12000, Run: func(c *Case) { hostileProject(c, "update-typ") }},
		},
		Assumptions: []string{
			"a version of a package is installed in one place only",
			"if a package name is used in several namespaces, the newest version of that name and the newest version in the namespace are both right",
			"the imported versions are installed; dependencies of packages are checked as written in the imported version or in the updated one",
		},
	})
}
