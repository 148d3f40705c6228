package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mewmew/typast/typst/syntax"
)

// The commands are run as an unprivileged user on files of their own in a
// scratch folder, so that a command that writes elsewhere reaches nothing.
const toolUser = 65534

var toolPriv = sync.OnceValue(func() bool {
	if os.Geteuid() != 0 {
		return false
	}
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: toolUser, Gid: toolUser}}
	return cmd.Run() == nil
})

// world is a scratch folder with a project and installed packages.
type world struct {
	c    *Case
	dir  string
	log  strings.Builder
	home string
}

func newWorld(c *Case) *world {
	base := ""
	if toolPriv() {
		base = "/tmp"
	}
	dir, err := os.MkdirTemp(base, "verif-world-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	w := &world{c: c, dir: dir, home: filepath.Join(dir, "home")}
	w.mkdir("home")
	w.mkdir("w")
	return w
}

func (w *world) close() { os.RemoveAll(w.dir) }

func (w *world) mkdir(rel string) {
	if err := os.MkdirAll(filepath.Join(w.dir, rel), 0o755); err != nil {
		panic("harness: " + err.Error())
	}
}

func (w *world) file(rel, content string) {
	w.mkdir(filepath.Dir(rel))
	if err := os.WriteFile(filepath.Join(w.dir, rel), []byte(content), 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	if len(content) < 2000 {
		fmt.Fprintf(&w.log, "file %s: %q\n", rel, content)
	} else {
		fmt.Fprintf(&w.log, "file %s: %d bytes\n", rel, len(content))
	}
}

func (w *world) link(rel, target string) {
	w.mkdir(filepath.Dir(rel))
	if err := os.Symlink(target, filepath.Join(w.dir, rel)); err != nil {
		panic("harness: " + err.Error())
	}
	fmt.Fprintf(&w.log, "link %s -> %s\n", rel, target)
}

// snapshot lists all files (with contents) below rel.
func (w *world) snapshot(rel string) map[string]string {
	out := map[string]string{}
	root := filepath.Join(w.dir, rel)
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		r, _ := filepath.Rel(root, p)
		switch {
		case d.Type()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			out[r] = "-> " + t
		case !d.IsDir():
			b, err := os.ReadFile(p)
			if err != nil {
				out[r] = "unreadable: " + err.Error()
			} else {
				out[r] = string(b)
			}
		}
		return nil
	})
	return out
}

type toolRun struct {
	code           int
	stdout, stderr string
}

// run runs a tool in folder cwd (relative to the world).
func (w *world) run(cwd string, env []string, tool string, args ...string) toolRun {
	fmt.Fprintf(&w.log, "in %s: %s %q %q\n", cwd, tool, args, env)
	w.c.Input = w.log.String()
	filepath.WalkDir(w.dir, func(p string, d fs.DirEntry, err error) error {
		if toolPriv() {
			os.Lchown(p, toolUser, toolUser)
		}
		return nil
	})
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_TOOLS"), tool), args...)
	cmd.Dir = filepath.Join(w.dir, cwd)
	cmd.Env = append([]string{"HOME=" + w.home, "PATH=/usr/bin:/bin"}, env...)
	if toolPriv() {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: toolUser, Gid: toolUser}}
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !timer.Stop() {
		w.c.Fail("%s did not end within 60 s", tool)
	}
	r := toolRun{stdout: so.String(), stderr: se.String()}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.code = ee.ExitCode()
	} else if err != nil {
		panic("harness: " + err.Error())
	}
	if strings.Contains(r.stderr, "\ngoroutine ") && strings.Contains(r.stderr, "panic: ") {
		if strings.Contains(r.stderr, "stdx.MathClassFromChar") {
			w.c.Skip("math class table is a stand-in")
		}
		w.c.Fail("%s crashed:\n%s", tool, tail(r.stderr))
	}
	return r
}

func sameFiles(c *Case, what string, got, want map[string]string) {
	c.Eval(1 + len(want))
	var names []string
	for n := range got {
		names = append(names, n)
	}
	for n := range want {
		if _, ok := got[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		g, gok := got[n]
		x, wok := want[n]
		switch {
		case !gok:
			c.Fail("%s: the file %q is missing", what, n)
		case !wok:
			c.Fail("%s: there is an unexpected file %q: %q", what, n, firstBytes(g))
		case g != x:
			c.Fail("%s: the file %q holds\n%q\nwant\n%q", what, n, firstBytes(g), firstBytes(x))
		}
	}
}

func firstBytes(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

// --- parse-typ ---------------------------------------------------------------

func dumpTree(n *syntax.SyntaxNode) string {
	var b strings.Builder
	var rec func(n *syntax.SyntaxNode, depth int)
	rec = func(n *syntax.SyntaxNode, depth int) {
		b.WriteString(strings.Repeat(" ", 2*depth))
		switch r := n.Repr.(type) {
		case *syntax.LeafNode:
			b.WriteString("leaf (kind=" + strconv.Quote(r.Kind.Name()) + ") text=" + strconv.Quote(r.Text) + "\n")
		case *syntax.ErrorNode:
			b.WriteString("error (text=" + strconv.Quote(r.Text) + ") error=" + strconv.Quote(r.Error.Message) + "\n")
		case *syntax.InnerNode:
			b.WriteString("inner (kind=" + strconv.Quote(r.Kind.Name()) + ")\n")
			for _, ch := range r.Children {
				rec(ch, depth+1)
			}
		}
	}
	rec(n, 0)
	return b.String()
}

// printedText collects the quoted texts of a printed tree.
func printedText(out string) (string, error) {
	var b strings.Builder
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		l = strings.TrimLeft(l, " ")
		var q string
		switch {
		case strings.HasPrefix(l, "inner (kind="):
			continue
		case strings.HasPrefix(l, "leaf (kind="):
			q = l[strings.Index(l, ") text=")+len(") text="):]
		case strings.HasPrefix(l, "error (text="):
			var err error
			if q, err = strconv.QuotedPrefix(l[len("error (text="):]); err != nil {
				return "", fmt.Errorf("line %q: %v", l, err)
			}
		default:
			return "", fmt.Errorf("unexpected line %q", l)
		}
		s, err := strconv.Unquote(q)
		if err != nil {
			return "", fmt.Errorf("line %q: %v", l, err)
		}
		b.WriteString(s)
	}
	return b.String(), nil
}

func parseTypCase(c *Case) {
	w := newWorld(c)
	defer w.close()
	n := 1 + c.IntN(3)
	if c.IntN(10) == 0 {
		n = 4 + c.IntN(20)
	}
	missing := -1
	if c.IntN(6) == 0 {
		missing = c.IntN(n)
	}
	var args []string
	var texts []string
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d.typ", i)
		if c.IntN(4) == 0 {
			name = fmt.Sprintf("dir é/f %d.typ", i)
		}
		if i > 0 && i != missing && c.IntN(8) == 0 {
			// A file that was there before.
			k := c.IntN(i)
			if k != missing && (missing < 0 || i < missing) {
				args = append(args, args[k])
				texts = append(texts, texts[k])
				continue
			}
		}
		args = append(args, name)
		if i == missing {
			if c.IntN(3) == 0 {
				// A folder is no file.
				w.file("w/"+name+"/x.typ", "x")
			}
			continue
		}
		text := anyText(c, 40)
		switch c.IntN(8) {
		case 0, 1:
			text = genDocument(c, 60)
		case 2:
			// A deep tree.
			k := 1 + c.IntN(200)
			f := nestFamilies[c.IntN(len(nestFamilies))]
			text = f.make(k)
		case 3:
			// Long tokens.
			text = strings.Repeat([]string{"a", "é", "`", "\n", "#x\n", "\\"}[c.IntN(6)], 1+c.IntN(3000))
		case 4:
			text = []string{"", "\n", " ", "\ufeffx", "#!sh\n", "\x00", "a\x00b"}[c.IntN(7)]
		}
		w.file("w/"+name, text)
		texts = append(texts, text)
	}
	if missing >= 0 {
		texts = texts[:missing]
	}
	before := w.snapshot("")
	r := w.run("w", nil, "parse-typ", args...)
	want := ""
	all := ""
	for _, t := range texts {
		want += dumpTree(syntax.Parse(t))
		all += t
	}
	c.Eval(1)
	if (r.code == 0) != (missing < 0) {
		c.Fail("exit status %d, a file is missing: %v\n%s", r.code, missing >= 0, tail(r.stderr))
	}
	if missing >= 0 && !strings.Contains(r.stderr, args[missing]) {
		c.Fail("the message does not name the missing file %q: %q", args[missing], firstLines(r.stderr, 3))
	}
	if r.stdout != want {
		c.Fail("printed\n%s\nwant\n%s", firstBytes(r.stdout), firstBytes(want))
	}
	if r.stdout != "" {
		got, err := printedText(r.stdout)
		if err != nil {
			c.Fail("%v", err)
		}
		if got != all {
			c.Fail("the printed texts spell %q, the files hold %q", got, all)
		}
	}
	sameFiles(c, "after printing", w.snapshot(""), before)
	for _, t := range texts {
		c.Distinct(shape(syntax.Parse(t)))
	}
	c.Cover(fmt.Sprintf("%d files", n))
	if missing >= 0 {
		c.Cover("missing file")
	}
	if len(all) < 60 {
		c.Sample(fmt.Sprintf("%q", all))
	}
}

// --- projects ----------------------------------------------------------------

// pkgRef identifies an installed package.
type pkgRef struct{ ns, name, version string }

func (p pkgRef) String() string { return "@" + p.ns + "/" + p.name + ":" + p.version }

// fileRoot is the project or a package: a tree of files with references.
type fileRoot struct {
	pkg   *pkgRef // nil for the project
	entry string
	typ   map[string]*typFile
	res   map[string]string
}

// typFile is a generated Typst file.
type typFile struct {
	segs []seg
	typs []string // root-relative Typst files it refers to
	res  []string // root-relative resources it refers to
	pkgs []pkgRef
}

// seg is a piece of text; ref marks the string literals that a tool may
// rewrite.
type seg struct {
	text string
	pkg  *pkgRef // the literal names this package
	as   bool    // the import names the module itself
	abs  string  // the literal is this absolute path
	end  bool    // end of an import: where a name may be inserted
}

func (f *typFile) source() string {
	var b strings.Builder
	for _, s := range f.segs {
		b.WriteString(s.text)
	}
	return b.String()
}

// projectGen generates the files of a root.
type projectGen struct {
	c    *Case
	root *fileRoot
	pkgs []pkgRef // packages that may be imported
	seen map[string]int
	// The names without folder, by extension, and the full names.
	bases map[string][]string
	names map[string]bool
	// plainOnly leaves out references to resources.
	noRes bool
}

var typDirs = []string{"", "src", "chap", "src/deep", "a b", "é"}

func (g *projectGen) newName(ext string) string {
	d := typDirs[g.c.IntN(len(typDirs))]
	g.seen[ext]++
	odd := ""
	if g.c.IntN(6) == 0 {
		odd = []string{" \"q\"", "\\", "\\u{41}", "\u00a0x", "\U0001F469\u200d\U0001F467", "'", "#x", "\u00ad", "//", "%20", "$", "`"}[g.c.IntN(12)]
		if odd == "//" {
			odd = ":"
		}
		g.c.Cover("odd file names")
	}
	if pkg := g.root.pkg; pkg != nil && g.c.IntN(10) == 0 {
		// A folder of the package that is named as the one it is vendored to.
		d = filepath.Join("libs", pkg.name, pkg.version, d)
		g.c.Cover("folders named like the vendored ones")
	}
	base := fmt.Sprintf("f%d%s%s", g.seen[ext], odd, ext)
	if old := g.bases[ext]; len(old) > 0 && g.c.IntN(4) == 0 {
		if b := old[g.c.IntN(len(old))]; !g.names[filepath.Join(d, b)] {
			base = b
			g.c.Cover("one name in two folders")
		}
	}
	g.bases[ext] = append(g.bases[ext], base)
	name := filepath.Join(d, base)
	g.names[name] = true
	return name
}

// relTo writes target as a path used in the file at from.
func (g *projectGen) relTo(from, target string) string {
	switch g.c.IntN(3) {
	case 0:
		return "/" + target
	default:
		r, _ := filepath.Rel(filepath.Dir(from), target)
		if g.c.IntN(4) == 0 {
			r = "./" + r
		}
		return r
	}
}

// typstQuote writes a string literal without any escapes that are not needed.
func typstQuote(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

// lit writes a string literal, sometimes with escapes.
func (g *projectGen) lit(s string) string {
	if g.c.IntN(6) != 0 {
		return typstQuote(s)
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if g.c.IntN(4) == 0 {
			fmt.Fprintf(&b, `\u{%x}`, r)
		} else if r == '"' || r == '\\' {
			b.WriteRune('\\')
			b.WriteRune(r)
		} else {
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (f *typFile) add(text string) { f.segs = append(f.segs, seg{text: text}) }

func (f *typFile) path(lit, path string) {
	s := seg{text: lit}
	if strings.HasPrefix(path, "/") {
		s.abs = path
	}
	f.segs = append(f.segs, s)
}

func (g *projectGen) filler(f *typFile) {
	f.add([]string{
		"Some text. ", "= Heading\n", "\n\n", "- item\n", "// #import \"nope.typ\"\n", "/* #include \"nope.typ\" */", "`#import \"nope.typ\"` ",
		"```typ\n#image(\"nope.png\")\n```\n", "#let x = \"nope.typ\"\n", "#link(\"nope.typ\")[import]\n", "#import calc: sin\n",
		"#text(\"image.png\")\n", "#image2(\"nope.png\")\n", "\\#import \"nope.typ\" ", "*strong* _emph_ ", "日本 é ", "#{ let import2 = \"@preview/nope:1.0.0\" }\n",
		"\"@preview/nope:1.0.0\" ", "#let y = (\"@preview/nope:1.0.0\", \"nope.png\")\n", "#str(\"read\")\n", "import \"nope.typ\" ", "#box[image(\"nope.png\")]\n",
		"#let image3 = image\n", "<label> @label\n", "\r\n", "#let f(x, y: 1) = { x + y }\n", "#readme(\"nope\")\n", "#if true { 1 } else [b]\n",
		"#set page(\"a4\")\n", "#set enum(\"1.a)\")\n", "#set image(alt: \"nope.png\")\n", "#set bibliography(title: \"nope.bib\")\n", "#show: f.with(\"nope.typ\")\n", "#show heading: set text(\"nope.png\")\n",
	}[g.c.IntN(34)])
}

// wrap puts a statement into a surrounding. The statement must not need markup.
func (g *projectGen) open(f *typFile) (hash bool, end string) {
	switch g.c.IntN(9) {
	case 0:
		f.add("#{ ")
		return false, " }\n"
	case 1:
		f.add("#{\n  ")
		return false, "\n  let z = 1\n}\n"
	case 2:
		f.add("#[ text ")
		return true, "\n]\n"
	case 3:
		f.add("#let fn(a) = { ")
		return false, "; a }\n"
	case 4:
		f.add("#if true { ")
		return false, " } else { 2 }\n"
	case 5:
		f.add("- item ")
		return true, "\n"
	case 6:
		f.add("#for i in range(2) {\n")
		return false, "\n}\n"
	default:
		return true, "\n"
	}
}

func (g *projectGen) space() string {
	return []string{" ", " ", " ", "", "  ", " /* c */ "}[g.c.IntN(6)]
}

// gap is white space that may stand between two words of a statement.
func (g *projectGen) gap() string {
	return []string{" ", " ", " ", "  ", " /* c */ ", "/* c */ /* as d */ /**/", "\t"}[g.c.IntN(7)]
}

// importRef writes an import of the literal that put writes.
func (g *projectGen) importRef(f *typFile, put func(as bool), stmt string) {
	c := g.c
	hash, end := g.open(f)
	if hash {
		f.add("#")
	}
	f.add(stmt + g.space())
	paren := c.IntN(6) == 0
	if paren {
		f.add("(")
		if c.IntN(3) == 0 {
			f.add(" ")
		}
	}
	as := stmt == "import" && c.IntN(3) == 0
	items := stmt == "import" && c.IntN(2) == 0
	put(as)
	if paren {
		if c.IntN(3) == 0 {
			f.add(" ")
		}
		f.add(")")
	}
	f.segs = append(f.segs, seg{end: true})
	if as {
		f.add(g.gap() + "as" + g.gap() + []string{"m", "mod", "x-y"}[c.IntN(3)])
	}
	if items {
		f.add([]string{"", "", " ", " /* : as */ "}[c.IntN(4)] + []string{": a", ": a, b as c", ": *", ": (a, b)", " : a.b as q, d", ": (\n a,\n b as as-x\n)"}[c.IntN(6)])
	}
	f.add(end)
}

// file generates a file and, recursively, what it refers to.
func (g *projectGen) file(name string, depth int) {
	f := &typFile{}
	g.root.typ[name] = f
	c := g.c
	if c.IntN(12) == 0 {
		f.add("\ufeff")
	}
	n := c.IntN(6)
	for i := 0; i < n; i++ {
		for k := c.IntN(3); k > 0; k-- {
			g.filler(f)
		}
		switch k := c.IntN(8); {
		case k < 3: // a Typst file
			var target string
			if len(g.root.typ) > 1 && c.IntN(3) == 0 || depth <= 0 {
				var names []string
				for t := range g.root.typ {
					names = append(names, t)
				}
				sort.Strings(names)
				target = names[c.IntN(len(names))]
			} else {
				ext := ".typ"
				if c.IntN(8) == 0 {
					ext = []string{".inc", "", ".typ.in", ".TYP"}[c.IntN(4)]
					c.Cover("Typst files with another extension")
				}
				target = g.newName(ext)
				g.file(target, depth-1)
			}
			f.typs = append(f.typs, target)
			p := g.relTo(name, target)
			g.importRef(f, func(bool) { f.path(g.lit(p), p) }, []string{"import", "include"}[c.IntN(2)])
		case k < 6 && len(g.pkgs) > 0:
			p := g.pkgs[c.IntN(len(g.pkgs))]
			f.pkgs = append(f.pkgs, p)
			g.importRef(f, func(as bool) { f.segs = append(f.segs, seg{text: g.lit(p.String()), pkg: &p, as: as}) }, "import")
		case !g.noRes:
			g.resource(name, f)
		default:
			g.filler(f)
		}
	}
	for k := c.IntN(3); k > 0; k-- {
		g.filler(f)
	}
	if c.IntN(3) == 0 {
		d := genDocument(c, 20)
		if !strings.Contains(d, "import") && !strings.Contains(d, "include") && !strings.Contains(d, "image") && !strings.Contains(d, "read") &&
			!strings.Contains(d, "plugin") && !strings.Contains(d, "bibliography") {
			f.add(d)
		}
	}
}

// res returns a path for a resource.
func (g *projectGen) res(f *typFile, name, ext string) string {
	var target string
	var have []string
	for t := range g.root.res {
		if filepath.Ext(t) == ext {
			have = append(have, t)
		}
	}
	sort.Strings(have)
	if len(have) > 0 && g.c.IntN(3) == 0 {
		target = have[g.c.IntN(len(have))]
	} else {
		target = g.newName(ext)
		b := make([]byte, g.c.IntN(200))
		for i := range b {
			b[i] = byte(g.c.IntN(256))
		}
		text := ext + string(b)
		if g.c.IntN(100) == 0 {
			text = strings.Repeat(text, 1<<g.c.IntN(23)/len(text)+1)
			g.c.Cover("large resources")
		}
		g.root.res[target] = text
	}
	f.res = append(f.res, target)
	return g.relTo(name, target)
}

func (g *projectGen) resource(name string, f *typFile) {
	c := g.c
	hash, end := g.open(f)
	if hash {
		f.add("#")
	}
	pre := []string{"", "width: 50%, ", "alt: [x], "}[c.IntN(3)]
	post := []string{"", ", width: 1cm", ", alt: \"nope\"", ","}[c.IntN(4)]
	lit := func(p string) { f.path(g.lit(p), p) }
	switch c.IntN(7) {
	case 0:
		p := g.res(f, name, ".png")
		f.add("image(" + pre)
		lit(p)
		f.add(post + ")")
	case 1:
		p := g.res(f, name, ".svg")
		f.add("figure(image(" + pre)
		lit(p)
		f.add(post + "), caption: [c])")
	case 2:
		p := g.res(f, name, ".wasm")
		f.add("let p = plugin(")
		lit(p)
		f.add(")")
	case 3:
		p := g.res(f, name, ".txt")
		f.add("read(")
		lit(p)
		f.add([]string{"", ", encoding: none"}[c.IntN(2)] + ")")
	case 4:
		p := g.res(f, name, ".bib")
		f.add("bibliography(")
		lit(p)
		f.add(", title: \"nope\", style: \"ieee\")")
	case 5:
		p := g.res(f, name, ".bib")
		s := g.res(f, name, ".csl")
		first := c.IntN(2) == 0
		f.add("bibliography(")
		if first {
			f.add([]string{"", "title: none, "}[c.IntN(2)] + "style: ")
			lit(s)
			f.add(", ")
		}
		lit(p)
		if !first {
			f.add([]string{"", ", title: \"t\""}[c.IntN(2)] + ", style: ")
			lit(s)
		}
		f.add(")")
	case 6:
		s := g.res(f, name, ".csl")
		f.add("set bibliography(" + []string{"", "title: [t], "}[c.IntN(2)] + "style: ")
		lit(s)
		f.add(")")
	}
	f.add(end)
}

func (g *projectGen) generate(depth int) {
	g.seen = map[string]int{}
	g.bases = map[string][]string{}
	g.names = map[string]bool{}
	g.root.typ = map[string]*typFile{}
	g.root.res = map[string]string{}
	g.root.entry = []string{"main.typ", "src/main.typ", "chap/main.typ"}[g.c.IntN(3)]
	g.file(g.root.entry, depth)
}

// install writes the files of a root to dir.
func (w *world) install(r *fileRoot, dir string) {
	for _, n := range sortedKeys(r.typ) {
		w.file(filepath.Join(dir, n), r.typ[n].source())
	}
	for _, n := range sortedKeys(r.res) {
		w.file(filepath.Join(dir, n), r.res[n])
	}
	if r.pkg != nil {
		w.file(filepath.Join(dir, "typst.toml"), fmt.Sprintf("[package]\nname = %q\nversion = %q\nentrypoint = %q\n", r.pkg.name, r.pkg.version, r.entry))
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// reach lists the Typst files reachable from the entry.
func (r *fileRoot) reach() []string {
	seen := map[string]bool{}
	var rec func(n string)
	rec = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, t := range r.typ[n].typs {
			rec(t)
		}
	}
	rec(r.entry)
	return sortedKeys(seen)
}

// clean checks that the generated text means what it was generated to mean: it
// holds exactly the imports and includes that were put there. Fillers and
// documents can interact; such files are dropped.
func (r *fileRoot) parses() bool {
	for _, n := range sortedKeys(r.typ) {
		f := r.typ[n]
		src := f.source()
		root := syntax.Parse(src)
		if countErrors(root) > 0 {
			return false
		}
		at, want := 0, map[int]bool{}
		for _, s := range f.segs {
			if strings.HasPrefix(s.text, `"`) && (s.pkg != nil || s.abs != "" || !strings.ContainsAny(s.text, " \n#")) {
				want[at] = true
			}
			at += len(s.text)
		}
		for _, fl := range flatten(root) {
			if fl.kind == syntax.SyntaxKindStr && fl.leaf {
				delete(want, fl.start)
			}
		}
		if len(want) > 0 {
			return false
		}
	}
	return true
}

// --- offline-typ -------------------------------------------------------------

func (f *typFile) offline(own *pkgRef, entry map[pkgRef]string) string {
	var b strings.Builder
	insert := ""
	for _, s := range f.segs {
		switch {
		case s.pkg != nil:
			b.WriteString(`"/libs/` + s.pkg.name + "/" + s.pkg.version + "/" + entry[*s.pkg] + `"`)
			if !s.as {
				insert = " as " + s.pkg.name
			}
		case s.abs != "" && own != nil:
			b.WriteString(typstQuote("/libs/" + own.name + "/" + own.version + s.abs))
		case s.end:
			b.WriteString(insert)
			insert = ""
		default:
			b.WriteString(s.text)
		}
	}
	return b.String()
}

// pkgDirOf is where the package is installed, relative to the home folder.
func pkgDirOf(p pkgRef, cache string) string {
	if p.ns == "local" {
		return filepath.Join("home/.local/share/typst/packages/local", p.name, p.version)
	}
	return filepath.Join(cache, "typst/packages", p.ns, p.name, p.version)
}

func genRoot(c *Case, pkg *pkgRef, pkgs []pkgRef, depth int, noRes bool) *fileRoot {
	for {
		r := &fileRoot{pkg: pkg}
		g := &projectGen{c: c, root: r, pkgs: pkgs, noRes: noRes}
		g.generate(depth)
		if r.parses() {
			return r
		}
		c.Cover("regenerated")
	}
}

func offlineCase(c *Case) {
	w := newWorld(c)
	defer w.close()
	cache, env := "home/.cache", []string(nil)
	if c.IntN(3) == 0 {
		cache = "cache2"
		env = append(env, "XDG_CACHE_HOME="+filepath.Join(w.dir, cache))
	}
	// Packages.
	var refs []pkgRef
	for i, n := 0, c.IntN(5); i < n; i++ {
		p := pkgRef{[]string{"preview", "local", "preview", "local", "preview", "acme"}[c.IntN(6)], fmt.Sprintf("pkg-%c", 'a'+i), fmt.Sprintf("%d.%d.%d", c.IntN(2), c.IntN(12), c.IntN(3))}
		refs = append(refs, p)
		if c.IntN(4) == 0 { // another version of it
			q := p
			q.version = fmt.Sprintf("2.0.%d", c.IntN(20))
			refs = append(refs, q)
		}
		if c.IntN(8) == 0 { // its name in the other namespace
			q := p
			q.ns = map[string]string{"preview": "local", "local": "preview", "acme": "preview"}[p.ns]
			if c.IntN(2) == 0 {
				q.version = "3.1.4"
			}
			refs = append(refs, q)
		}
	}
	roots := map[pkgRef]*fileRoot{}
	entry := map[pkgRef]string{}
	for i := range refs {
		roots[refs[i]] = genRoot(c, &refs[i], refs, 1, false)
		entry[refs[i]] = roots[refs[i]].entry
	}
	proj := genRoot(c, nil, refs, 3, false)
	for _, p := range refs {
		w.install(roots[p], pkgDirOf(p, cache))
		w.file(filepath.Join(pkgDirOf(p, cache), "unused.typ"), "#import \"nope.typ\"")
	}
	w.install(proj, "w/proj")
	w.file("w/proj/unused.typ", "#image(\"nope.png\")")
	w.file("w/proj/unused.png", "png")
	w.file("w/fonts/a.otf", "font a")
	w.file("w/fonts/sub/b.otf", "font b")
	fonts := []map[string]string{{"fonts/a.otf": "font a", "fonts/sub/b.otf": "font b"}, {}, {}}
	for i, dir := range []string{"fonts", "more fonts/x", "f2"} {
		for k := c.IntN(4); k > 0; k-- {
			n := []string{"c.ttf", "d.ttc", "E.OTF", "LICENSE", ".hidden", "sub/c.ttf", "a/b/c/d.woff2", "é ü.otf", "nothing.otf", "sub/sub/a.otf"}[c.IntN(10)]
			text := strings.Repeat("\x00\x01\xff"+n, c.IntN(50))
			if c.IntN(40) == 0 {
				text = strings.Repeat(n, 1<<c.IntN(23)/len(n)+1)
				c.Cover("large fonts")
			}
			w.file(filepath.Join("w", dir, n), text)
			os.Chmod(filepath.Join(w.dir, "w", dir, n), []fs.FileMode{0o644, 0o755, 0o444, 0o600}[c.IntN(4)])
			fonts[i][filepath.Join(dir, n)] = text
		}
		w.mkdir(filepath.Join("w", dir, "empty"))
	}

	// What must come out.
	want := map[string]string{}
	done := map[pkgRef]bool{}
	var emit func(r *fileRoot, dir string)
	emit = func(r *fileRoot, dir string) {
		var next []pkgRef
		for _, n := range r.reach() {
			f := r.typ[n]
			want[filepath.Join(dir, n)] = f.offline(r.pkg, entry)
			for _, p := range f.res {
				want[filepath.Join(dir, p)] = r.res[p]
				c.Cover("resources")
			}
			for _, p := range f.typs {
				_ = p
				c.Cover("local imports")
			}
			for _, s := range f.segs {
				if s.abs != "" && r.pkg != nil {
					c.Cover("absolute paths in packages")
				}
			}
			next = append(next, f.pkgs...)
		}
		for _, p := range next {
			if r.pkg != nil {
				c.Cover("transitive package imports")
			} else {
				c.Cover("package imports")
			}
			if !done[p] {
				done[p] = true
				emit(roots[p], filepath.Join("libs", p.name, p.version))
			}
		}
	}
	emit(proj, "")

	// The path of a vendored package has no namespace.
	clash := ""
	for p := range done {
		for q := range done {
			if p.ns != q.ns && p.name == q.name && p.version == q.version {
				clash = fmt.Sprintf("%s and %s belong into the same folder", p, q)
			}
		}
	}

	// How it is called.
	var args []string
	fontFiles := map[string]string{}
	out := "w/out"
	if c.IntN(2) == 0 {
		out = "w/vendor/x"
		args = append(args, "-out", []string{"vendor/x", filepath.Join(w.dir, out)}[c.IntN(2)])
	}
	var resolved string
	if filepath.Dir(proj.entry) == "." && c.IntN(2) == 0 {
		resolved = "" // the folder of the file is the root
	} else {
		args = append(args, "-root", []string{"proj", "./proj/", filepath.Join(w.dir, "w/proj")}[c.IntN(3)])
		resolved = "root"
	}
	if c.IntN(3) == 0 {
		var dirs []string
		for i, k := 0, c.IntN(3); i <= k; i++ {
			dirs = append(dirs, []string{"fonts", "more fonts/x", "f2"}[i])
			for n, text := range fonts[i] {
				fontFiles[n] = text
				want[n] = text
				c.Cover("fonts")
			}
		}
		args = append(args, "-font-path", strings.Join(dirs, ":"))
	}
	if c.IntN(4) == 0 {
		args = append(args, "-v")
	}
	args = append(args, []string{"proj/" + proj.entry, filepath.Join(w.dir, "w/proj", proj.entry)}[c.IntN(2)])

	// Something missing must be reported.
	broken := ""
	if clash != "" {
		broken = clash
		c.Cover("packages that belong into the same folder")
	} else if c.IntN(6) == 0 {
		broken = w.breakOne(c, proj, roots, done, cache)
	}
	obstacle := ""
	if broken == "" && c.IntN(6) == 0 {
		obstacle = w.obstruct(c, out, sortedKeys(want), false)
	} else if c.IntN(6) == 0 {
		w.stale(c, out, want)
	}
	before := w.snapshot("")
	r := w.run("w", env, "offline-typ", args...)
	after := w.snapshot("")
	for n := range after {
		if strings.HasPrefix(n, out+"/") {
			delete(after, n)
		}
	}
	for n := range before {
		if strings.HasPrefix(n, out+"/") {
			delete(before, n)
		}
	}
	sameFiles(c, "outside of the output folder", after, before)
	if obstacle != "" && r.code != 0 {
		c.Cover("output that cannot be written reported")
		return
	}
	if broken != "" {
		c.Eval(1)
		if r.code == 0 {
			c.Fail("%s, but the command succeeds\n%s", broken, tail(r.stderr))
		}
		c.Cover("failures reported")
		return
	}
	if r.code != 0 {
		c.Fail("exit status %d:\n%s", r.code, tail(r.stderr))
	}
	got := w.snapshot(out)
	sameFiles(c, "output folder", got, want)
	for n, text := range got {
		if strings.HasSuffix(n, ".typ") && countErrors(syntax.Parse(text)) > 0 {
			c.Fail("the rewritten file %q does not parse: %q", n, text)
		}
	}
	// The vendored project needs no package any more and vendors to itself.
	if c.IntN(3) == 0 {
		r := w.run("w", []string{"XDG_CACHE_HOME=" + filepath.Join(w.dir, "nothing")}, "offline-typ", "-root", filepath.Join(w.dir, out), "-out", "again",
			filepath.Join(w.dir, out, proj.entry))
		if r.code != 0 {
			c.Fail("converting the offline version again: exit status %d:\n%s", r.code, tail(r.stderr))
		}
		for n := range fontFiles {
			delete(want, n)
		}
		sameFiles(c, "offline version of the offline version", w.snapshot("w/again"), want)
		c.Cover("converted again")
	}
	c.Cover("converted" + resolved)
	c.CoverN("files compared", len(want))
	c.CoverN("packages vendored", len(done))
	c.Distinct(c.Input)
	if len(want) < 4 && len(want) > 1 {
		c.Sample(c.Input)
	}
}

// obstruct makes writing one of the files impossible: something else has its
// name, or the rights are missing.
func (w *world) obstruct(c *Case, out string, names []string, exists bool) string {
	if len(names) == 0 || !toolPriv() {
		return ""
	}
	n := filepath.Join(out, names[c.IntN(len(names))])
	dir := filepath.Dir(n)
	how := ""
	switch k := c.IntN(4); {
	case k == 0 && !exists:
		w.mkdir(filepath.Join(n, "x"))
		how = "a folder has the name " + n
	case k == 1 && !exists && dir != filepath.Clean(out):
		w.file(dir, "x")
		how = "a file has the name " + dir
	case k == 2 && !exists:
		w.mkdir(dir)
		os.Chmod(filepath.Join(w.dir, dir), 0o555)
		how = "no right to write to " + dir
	default:
		if !exists {
			w.file(n, "old")
		}
		os.Chmod(filepath.Join(w.dir, n), 0o444)
		how = "no right to write " + n
	}
	fmt.Fprintf(&w.log, "%s\n", how)
	return how
}

// stale leaves files of an earlier run in the output folder, some of them of
// the same size.
func (w *world) stale(c *Case, out string, want map[string]string) {
	for _, n := range sortedKeys(want) {
		if c.IntN(2) == 0 {
			continue
		}
		size := len(want[n])
		switch c.IntN(4) {
		case 0:
			size += 1 + c.IntN(40)
		case 1:
			size = c.IntN(size + 1)
		}
		w.file(filepath.Join(out, n), strings.Repeat("~", size))
	}
	c.Cover("output folders with files of an earlier run")
}

// breakOne removes a file that is needed.
func (w *world) breakOne(c *Case, proj *fileRoot, roots map[pkgRef]*fileRoot, done map[pkgRef]bool, cache string) string {
	type victim struct{ dir, file, what string }
	var vs []victim
	add := func(r *fileRoot, dir string) {
		for _, n := range r.reach() {
			if n != r.entry || r.pkg != nil {
				vs = append(vs, victim{dir, n, "a Typst file is missing"})
			}
			for _, p := range r.typ[n].res {
				if filepath.Ext(p) != ".csl" { // may as well be the name of a style
					vs = append(vs, victim{dir, p, "a resource is missing"})
				}
			}
		}
		if r.pkg != nil {
			vs = append(vs, victim{dir, "typst.toml", "a package manifest is missing"}, victim{dir, ".", "a package is missing"})
		}
	}
	add(proj, "w/proj")
	var ps []pkgRef
	for p := range done {
		ps = append(ps, p)
	}
	slices.SortFunc(ps, func(a, b pkgRef) int { return strings.Compare(a.String(), b.String()) })
	for _, p := range ps {
		add(roots[p], pkgDirOf(p, cache))
	}
	if len(vs) == 0 {
		return ""
	}
	v := vs[c.IntN(len(vs))]
	os.RemoveAll(filepath.Join(w.dir, v.dir, v.file))
	fmt.Fprintf(&w.log, "remove %s\n", filepath.Join(v.dir, v.file))
	return v.what + ": " + filepath.Join(v.dir, v.file)
}

// hostileProject runs a tool on arbitrary text: it must not crash and must not
// touch anything outside of the output folder.
func hostileProject(c *Case, tool string) {
	w := newWorld(c)
	defer w.close()
	toks := []string{"#import ", "#include ", "#import", "import ", "\"a.typ\"", "\"b.typ\"", "\"../up.typ\"", "\"/a.typ\"", "\"../../up.typ\"", "\"@preview/p:1.0.0\"",
		"\"@local/q:0.1.0\"", "\"@preview/none:1.0.0\"", "\"@preview/p\"", "\"@x\"", "\"\"", "\"\\\\\"", "\"\\u{zz}\"", "\"a\nb\"", "(", ")", ": ", "*", "as ", "x", ",", "{", "}", "[", "]",
		" ", "\n", "#image(", "#read(", "\"i.png\"", "#bibliography(", "style: ", "\"/i.png\"", "#set bibliography(", "\"..\"", "\".\"", "#plugin(", "\"unclosed", "#", "$", "1", ";", "/* ", "//"}
	text := func() string {
		if c.IntN(4) == 0 {
			return strings.ReplaceAll(anyText(c, 20), "$", "")
		}
		var b strings.Builder
		for i, n := 0, c.IntN(12); i < n; i++ {
			b.WriteString(toks[c.IntN(len(toks))])
		}
		return strings.ReplaceAll(b.String(), "$", "")
	}
	main := text()
	w.file("w/p/main.typ", main)
	w.file("w/p/a.typ", text())
	w.file("w/p/b.typ", text())
	w.file("w/up.typ", "outside")
	w.file("up.typ", "outside")
	w.file("w/p/i.png", "png")
	w.file("home/.cache/typst/packages/preview/p/1.0.0/typst.toml", "[package]\nname = \"p\"\nversion = \"1.0.0\"\nentrypoint = \"lib.typ\"\n")
	w.file("home/.cache/typst/packages/preview/p/1.0.0/lib.typ", text())
	w.file("home/.cache/typst/packages/preview/p/1.0.0/a.typ", text())
	w.file("home/.local/share/typst/packages/local/q/0.1.0/typst.toml", "[package]\nname = \"q\"\nversion = \"0.1.0\"\nentrypoint = \"lib.typ\"\n")
	w.file("home/.local/share/typst/packages/local/q/0.1.0/lib.typ", text())
	before := w.snapshot("")
	r := w.run("w", nil, tool, "-out", "out/put", "p/main.typ")
	c.Eval(1)
	after := w.snapshot("")
	for n := range after {
		if strings.HasPrefix(n, "w/out/put/") {
			delete(after, n)
		}
	}
	sameFiles(c, "outside of the output folder", after, before)
	if r.code == 0 {
		c.Cover("succeeded")
		if _, ok := w.snapshot("w/out/put")["main.typ"]; !ok {
			c.Fail("the command succeeded without writing the file")
		}
	} else {
		c.Cover("failed")
		if r.code != 1 || r.stderr+r.stdout == "" {
			c.Fail("exit status %d without a message\n%s", r.code, tail(r.stderr))
		}
	}
	c.Distinct(main)
}

func init() {
	register(&Prop{
		ID:     "P22",
		Rule:   "a printed file counts by the shape of its tree",
		Groups: []Group{{Name: "print", Quick: 900, Thorough: 25000, Run: parseTypCase}},
	})
	register(&Prop{
		ID:   "P23",
		Rule: "a converted project counts by its files and the command line; an arbitrary text by itself",
		Groups: []Group{
			{Name: "projects", Quick: 700, Thorough: 20000, Run: offlineCase},
			{Name: "arbitrary", Quick: 500, Thorough: 12000, Run: func(c *Case) { hostileProject(c, "offline-typ") }},
		},
	})
}
