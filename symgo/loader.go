package main

import (
	"go/ast"
	"go/parser"
	"go/token"

	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loader struct {
	repo    string
	hdir    string
	prog    *ssa.Program
	main    *ssa.Package
	pkg     *packages.Package
	files   []string // harness files in use
	dropped map[string]string
	consts  map[string][]byte // /repo files with overridden constants
	text    map[string][]byte // harness file contents in use
	capMs   int
	slowMs  int
	verbose bool
}

// Load type-checks /repo together with the harness files (as an overlay) and
// builds SSA.  Harness files that do not type-check against the current tree
// are dropped, one at a time.
func Load(repo, hdir string, topics []string) (*Loader, error) {
	L := &Loader{repo: repo, hdir: hdir, dropped: map[string]string{}, consts: map[string][]byte{}, capMs: 2500, slowMs: 60000}
	var files []string
	files = append(files, filepath.Join(hdir, "vrt.go"))
	want := map[string]bool{}
	for _, t := range topics {
		want[t] = true
	}
	all, _ := filepath.Glob(filepath.Join(hdir, "h_*.go"))
	sort.Strings(all)
	for _, f := range all {
		b := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(f), "h_"), ".go")
		if len(want) == 0 || want[b] || strings.HasPrefix(b, "lib") {
			files = append(files, f)
		}
	}
	text := map[string][]byte{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		text[f] = b
		for _, m := range constRe.FindAllStringSubmatch(string(b), -1) {
			if err := L.overrideConst(m[1], m[2]); err != nil {
				L.dropped["const "+m[1]] = err.Error()
			}
		}
	}
	for _, f := range files {
		for _, m := range substRe.FindAllStringSubmatch(string(text[f]), -1) {
			if err := L.substPkg(m[1], text); err != nil {
				return nil, err
			}
		}
	}
	for {
		ov := map[string][]byte{}
		real := map[string]string{}
		for _, f := range files {
			p := filepath.Join(repo, "zz_verif_"+filepath.Base(f))
			ov[p] = text[f]
			real[p] = f
		}
		for f, b := range L.consts {
			ov[f] = b
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: os.Environ()}
		ps, err := packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		if len(ps) != 1 {
			return nil, fmt.Errorf("%d packages", len(ps))
		}
		progress := false
		var other []string
		for _, e := range ps[0].Errors {
			f, line := e.Pos, 0
			if i := strings.Index(f, ".go:"); i >= 0 {
				fmt.Sscanf(f[i+4:], "%d", &line)
				f = f[:i+3]
			}
			r, ok := real[f]
			if !ok {
				other = append(other, e.Error())
				continue
			}
			nb, what := blankDecl(text[r], line)
			if nb != nil {
				text[r] = nb
				L.dropped[filepath.Base(r)+":"+what] = e.Error()
				progress = true
				// positions of further errors in this file stay valid
				// (declarations are blanked in place)
			} else if what == "" {
				L.dropped[r] = e.Error()
				var keep []string
				for _, g := range files {
					if g != r {
						keep = append(keep, g)
					}
				}
				files = keep
				progress = true
			}
		}
		if progress {
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("load: %s", other[0])
		}
		L.text = text
		prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		L.prog, L.main, L.pkg = prog, pkgs[0], ps[0]
		L.files = files
		return L, nil
	}
}

var constRe = regexp.MustCompile(`(?m)^//verif:const[ \t]+(\w+)[ \t]+(.*)$`)

var substRe = regexp.MustCompile(`(?m)^//verif:subst[ \t]+(\w+)`)

// substPkg replaces pkg.X by v<pkg>_X in the sources of the code under test for
// every name v<pkg>_X that a harness file declares (an in-memory stand-in for
// the operating system, say).
func (L *Loader) substPkg(pkg string, text map[string][]byte) error {
	have := map[string]bool{}
	declRe := regexp.MustCompile(`(?m)^(?:func|var|type) (v` + pkg + `_\w+)`)
	for _, b := range text {
		for _, m := range declRe.FindAllStringSubmatch(string(b), -1) {
			have[m[1]] = true
		}
	}
	fsn, _ := filepath.Glob(filepath.Join(L.repo, "*.go"))
	for _, fn := range fsn {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		src := L.consts[fn]
		if src == nil {
			b, err := os.ReadFile(fn)
			if err != nil {
				return err
			}
			src = b
		}
		if !strings.Contains(string(src), "\""+pkg+"\"") {
			continue
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			return err
		}
		type edit struct {
			from, to int
			s        string
		}
		var ed []edit
		other := ""
		ast.Inspect(f, func(n ast.Node) bool {
			se, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := se.X.(*ast.Ident)
			if !ok || id.Name != pkg || id.Obj != nil {
				return true
			}
			nm := "v" + pkg + "_" + se.Sel.Name
			if have[nm] {
				ed = append(ed, edit{fs.Position(se.Pos()).Offset, fs.Position(se.End()).Offset, nm})
			} else {
				other = se.Sel.Name
			}
			return true
		})
		if len(ed) == 0 {
			continue
		}
		sort.Slice(ed, func(i, j int) bool { return ed[i].from > ed[j].from })
		out := string(src)
		for _, e := range ed {
			out = out[:e.from] + e.s + out[e.to:]
		}
		if other == "" {
			out += "\nvar _ " + pkg + ".FileMode\n"
		}
		L.consts[fn] = []byte(out)
	}
	return nil
}

// blankDecl replaces the top-level declaration that covers the line by
// spaces.  It returns nil,"blank" if the line is already blank and nil,"" if no
// declaration covers it.
func blankDecl(src []byte, line int) ([]byte, string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, ""
	}
	for _, d := range f.Decls {
		p, e := fs.Position(d.Pos()), fs.Position(d.End())
		if line < p.Line || line > e.Line {
			continue
		}
		from, to := p.Offset, e.Offset
		name := "decl"
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
			if fd.Doc != nil {
				from = fs.Position(fd.Doc.Pos()).Offset
			}
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			for _, sp := range gd.Specs {
				if sl := fs.Position(sp.Pos()); sl.Line == line {
					from, to = sl.Offset, fs.Position(sp.End()).Offset
					name = "import"
				}
			}
		}
		out := append([]byte{}, src...)
		for i := from; i < to; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		return out, name
	}
	lines := strings.Split(string(src), "\n")
	if line >= 1 && line <= len(lines) && strings.TrimSpace(lines[line-1]) == "" {
		return nil, "blank"
	}
	return nil, ""
}

// overrideConst substitutes the value of a constant of the code under test, to
// bring the size of a table within reach (stated by the harness as a bound).
func (L *Loader) overrideConst(name, val string) error {
	fsn, _ := filepath.Glob(filepath.Join(L.repo, "*.go"))
	for _, fn := range fsn {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		src := L.consts[fn]
		if src == nil {
			b, err := os.ReadFile(fn)
			if err != nil {
				return err
			}
			src = b
		}
		if !strings.Contains(string(src), name) {
			continue
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.CONST {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if n.Name == name && i < len(vs.Values) {
						from := fs.Position(vs.Values[i].Pos()).Offset
						to := fs.Position(vs.Values[i].End()).Offset
						out := string(src[:from]) + val + string(src[to:])
						L.consts[fn] = []byte(out)
						return nil
					}
				}
			}
		}
	}
	return fmt.Errorf("constant %s not found", name)
}

type harnessInfo struct {
	fn   *ssa.Function
	name string
	file string
	doc  map[string]string // directives from //verif: comments
}

var dirRe = regexp.MustCompile(`(?m)^//verif:(\w+)[ \t]*(.*)$`)

// harnesses returns the harness functions (H_*) with their directives.
func (L *Loader) harnesses() []*harnessInfo {
	var r []*harnessInfo
	for _, f := range L.pkg.Syntax {
		fn := L.prog.Fset.Position(f.Pos()).Filename
		if !strings.HasPrefix(filepath.Base(fn), "zz_verif_h_") {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := asFunc(d)
			if !ok || !strings.HasPrefix(fd.Name.Name, "H_") {
				continue
			}
			h := &harnessInfo{name: fd.Name.Name, file: filepath.Base(fn), doc: map[string]string{}}
			h.fn = L.main.Func(h.name)
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					for _, m := range dirRe.FindAllStringSubmatch(c.Text, -1) {
						h.doc[m[1]] = strings.TrimSpace(m[2])
					}
				}
			}
			r = append(r, h)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

// replayNative runs the harness natively on concrete inputs with go test -overlay.
// Returns output and whether the named failure reproduced.
func (L *Loader) replayNative(harness string, inputs []InputVal, work string) (string, string, error) {
	if err := L.buildReplay(work); err != nil {
		return "", "", err
	}
	in := filepath.Join(work, "in.json")
	b, _ := json.Marshal(inputs)
	os.WriteFile(in, b, 0644)
	td, _ := os.MkdirTemp(work, "run")
	defer os.RemoveAll(td)
	cmd := exec.Command("timeout", "60", filepath.Join(work, "replay.test"), "-test.run", "^TestZZVerifReplay$", "-test.v", "-test.timeout", "50s")
	cmd.Dir = td
	cmd.Env = append(os.Environ(), "VERIF_HARNESS="+harness, "VERIF_INPUTS="+in, "VERIF_TMP="+td, "GOMEMLIMIT=4GiB")
	out, err := cmd.CombinedOutput()
	txt := string(out)
	res := ""
	for _, l := range strings.Split(txt, "\n") {
		if strings.HasPrefix(l, "VERIF-RESULT ") {
			res = strings.TrimPrefix(l, "VERIF-RESULT ")
		}
	}
	if res == "" {
		if i := strings.Index(txt, "panic: "); i >= 0 {
			e := txt[i:]
			if j := strings.IndexByte(e, '\n'); j >= 0 {
				e = e[:j]
			}
			res = "crash " + e
		} else if strings.Contains(txt, "fatal error: ") {
			i := strings.Index(txt, "fatal error: ")
			e := txt[i:]
			if j := strings.IndexByte(e, '\n'); j >= 0 {
				e = e[:j]
			}
			res = "crash " + e
		}
	}
	_ = err
	return res, txt, nil
}

// buildReplay compiles the test binary used for native replays (once).
func (L *Loader) buildReplay(work string) error {
	bin := filepath.Join(work, "replay.test")
	if _, err := os.Stat(bin); err == nil {
		return nil
	}
	rep := map[string]string{}
	for _, f := range L.files {
		b := strings.TrimSuffix(filepath.Base(f), ".go")
		tf := filepath.Join(work, "zz_"+b+"_test.go")
		if err := os.WriteFile(tf, L.text[f], 0644); err != nil {
			return err
		}
		rep[filepath.Join(L.repo, "zz_verif_"+b+"_test.go")] = tf
	}
	for f, b := range L.consts {
		tf := filepath.Join(work, "const_"+filepath.Base(f))
		if err := os.WriteFile(tf, b, 0644); err != nil {
			return err
		}
		rep[f] = tf
	}
	// registry of harness functions
	var sb strings.Builder
	sb.WriteString("package main\n\nvar vRegistry = map[string]func(){\n")
	for _, h := range L.harnesses() {
		fmt.Fprintf(&sb, "\t%q: %s,\n", h.name, h.name)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(work, "registry_test.go")
	if err := os.WriteFile(reg, []byte(sb.String()), 0644); err != nil {
		return err
	}
	rep[filepath.Join(L.repo, "zz_verif_registry_test.go")] = reg
	rep[filepath.Join(L.repo, "zz_verif_replay_test.go")] = filepath.Join(L.hdir, "replay_test.go.txt")
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(work, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	cmd := exec.Command("go", "test", "-overlay", ovf, "-vet=off", "-c", "-o", bin, ".")
	cmd.Dir = L.repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("replay build: %v\n%s", err, out)
	}
	return nil
}

var _ types.Type

// topicsFor lists the harness files that hold harnesses of the property (or
// with the given name patterns).
func topicsFor(hdir, prop string, match func(name string) bool) []string {
	all, _ := filepath.Glob(filepath.Join(hdir, "h_*.go"))
	sort.Strings(all)
	var r []string
	fnRe := regexp.MustCompile(`(?m)^func (H_\w+)\(`)
	for _, f := range all {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		hit := false
		if prop != "" {
			for _, m := range dirRe.FindAllStringSubmatch(string(b), -1) {
				if m[1] == "prop" {
					for _, p := range strings.Fields(m[2]) {
						hit = hit || p == prop
					}
				}
			}
		}
		if match != nil {
			for _, m := range fnRe.FindAllStringSubmatch(string(b), -1) {
				hit = hit || match(m[1])
			}
		}
		if hit {
			r = append(r, strings.TrimSuffix(strings.TrimPrefix(filepath.Base(f), "h_"), ".go"))
		}
	}
	if len(r) == 0 {
		r = []string{"none"}
	}
	return r
}
