package main

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0o644)
}

// regenerate lays out a scratch copy of v3's templates and hand-written
// sources, builds the project's generator and lets it produce the generated
// files there, the way v3/Makefile does. Nothing under repo is written. The
// generator runs as an unprivileged user that owns only the scratch copy.
func regenerate(repo, scratch string) (string, error) {
	gen := filepath.Join(scratch, "generation")
	v3 := filepath.Join(scratch, "v3")
	for _, d := range []string{gen, v3} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return "", err
		}
	}
	copyDir := func(dst, src string, keep func(string) bool) error {
		es, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range es {
			if e.Type().IsRegular() && keep(e.Name()) {
				if err := copyFile(filepath.Join(dst, e.Name()), filepath.Join(src, e.Name())); err != nil {
					return err
				}
			}
		}
		return nil
	}
	notTest := func(n string) bool { return !strings.HasSuffix(n, "_test.go") }
	if err := copyDir(gen, filepath.Join(repo, "generation"), func(n string) bool {
		return notTest(n) && (strings.HasSuffix(n, ".go") || n == "go.mod" || n == "go.sum")
	}); err != nil {
		return "", err
	}
	if err := copyDir(v3, filepath.Join(repo, "v3"), func(n string) bool {
		return notTest(n) && !strings.HasSuffix(n, ".generated.go") && (strings.HasSuffix(n, ".go") || n == "go.mod" || n == "go.sum")
	}); err != nil {
		return "", err
	}
	bin := filepath.Join(scratch, "gen.bin")
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	b := exec.CommandContext(ctx, "go", "build", "-o", bin, ".")
	b.Dir = gen
	b.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off")
	if out, err := b.CombinedOutput(); err != nil {
		return "", fmt.Errorf("the generator does not build: %v: %s", err, firstLines(out))
	}
	// hand the copy to an unprivileged user
	const nobody = 65534
	_ = os.Chmod(scratch, 0o755)
	owned := true
	filepath.Walk(v3, func(p string, _ os.FileInfo, err error) error {
		if err == nil && os.Lchown(p, nobody, nobody) != nil {
			owned = false
		}
		return nil
	})
	ctx2, cancel2 := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel2()
	g := exec.CommandContext(ctx2, bin, "-generation", "complex")
	g.Dir = v3
	g.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + v3, "TMPDIR=" + v3}
	if owned && os.Getuid() == 0 {
		g.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
	}
	var out bytes.Buffer
	g.Stdout, g.Stderr = &out, &out
	if err := g.Run(); err != nil {
		return "", fmt.Errorf("the generator fails: %v: %s", err, firstLines(out.Bytes()))
	}
	m, _ := filepath.Glob(filepath.Join(v3, "*.generated.go"))
	if len(m) == 0 {
		return "", fmt.Errorf("the generator wrote no *.generated.go: %s", firstLines(out.Bytes()))
	}
	return v3, nil
}

func firstLines(b []byte) string {
	ls := strings.Split(strings.TrimSpace(string(b)), "\n")
	if len(ls) > 4 {
		ls = ls[len(ls)-4:]
	}
	return strings.Join(ls, " | ")
}

// api maps every exported method (and function) to its signature.
func api(p *Program) map[string]string {
	out := map[string]string{}
	q := func(pk *types.Package) string {
		if pk == p.main.Pkg {
			return ""
		}
		return pk.Name()
	}
	sc := p.main.Pkg.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if f, ok := o.(*types.Func); ok && f.Exported() {
			out[n] = sigStr(f.Type().(*types.Signature), q)
		}
		tn, ok := o.(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		nm, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		for i := 0; i < nm.NumMethods(); i++ {
			if m := nm.Method(i); m.Exported() {
				out[n+"."+m.Name()] = sigStr(m.Type().(*types.Signature), q)
			}
		}
	}
	return out
}

// sigStr renders a signature without parameter names.
func sigStr(s *types.Signature, q types.Qualifier) string {
	tup := func(t *types.Tuple, variadic bool) string {
		var ps []string
		for i := 0; i < t.Len(); i++ {
			x := types.TypeString(t.At(i).Type(), q)
			x = strings.ReplaceAll(x, "uint8", "byte")
			if variadic && i == t.Len()-1 {
				x = "..." + strings.TrimPrefix(x, "[]")
			}
			ps = append(ps, x)
		}
		return "(" + strings.Join(ps, ", ") + ")"
	}
	return tup(s.Params(), s.Variadic()) + tup(s.Results(), false)
}

// wantMatrix is the exact typed-access API v3 promises.
func wantMatrix() map[string]string {
	out := map[string]string{}
	for _, typ := range []string{"Buffer", "MiniBuffer"} {
		for kind, ws := range map[string][]string{"U": {"16", "32", "64"}, "I": {"16", "32", "64"}, "F": {"32", "64"}} {
			for _, w := range ws {
				el := map[string]string{"U": "uint", "I": "int", "F": "float"}[kind] + w
				for _, o := range []string{"LE", "BE"} {
					n := kind + w + o
					out[typ+".Write"+n] = "(int64, []" + el + ")()"
					out[typ+".Write"+n+"Next"] = "([]" + el + ")()"
					if typ == "Buffer" {
						out[typ+".Read"+n] = "(int64, int64)([]" + el + ")"
						out[typ+".Read"+n+"Next"] = "(int64)([]" + el + ")"
					} else {
						out[typ+".Read"+n] = "(*[]" + el + ", int64, int64)()"
						out[typ+".Read"+n+"Next"] = "(*[]" + el + ", int64)()"
					}
				}
			}
		}
	}
	return out
}

func (p *Program) objPos(key string) string {
	parts := strings.SplitN(key, ".", 2)
	o := p.main.Pkg.Scope().Lookup(parts[0])
	if o == nil {
		return "?"
	}
	if len(parts) == 2 {
		if nm, ok := o.Type().(*types.Named); ok {
			for i := 0; i < nm.NumMethods(); i++ {
				if nm.Method(i).Name() == parts[1] {
					return p.pos(nm.Method(i).Pos())
				}
			}
		}
	}
	return p.pos(o.Pos())
}

// ruleAPI decides C21: the shipped matrix is exact, and the shipped exported
// API equals the one the templates produce.
func ruleAPI(shipped *Program, regen *Program, repo string) *ruleResult {
	r := &ruleResult{}
	have := api(shipped)
	want := wantMatrix()
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.checked++
		switch h, ok := have[k]; {
		case !ok:
			r.fail("C21", "v3/matrix", "v3", k, "v3 does not offer %s%s", k, want[k])
		case h != want[k]:
			r.fail("C21", "v3/matrix", shipped.objPos(k), k, "%s has signature %s, its name promises %s", k, h, want[k])
		}
	}
	r.count("matrix entries", len(want))
	re := api(regen)
	all := map[string]bool{}
	for k := range have {
		all[k] = true
	}
	for k := range re {
		all[k] = true
	}
	ks = ks[:0]
	for k := range all {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.checked++
		h, ok := have[k]
		g, ok2 := re[k]
		switch {
		case !ok:
			r.fail("C21", "v3/templates", regen.objPos(k), k, "the templates produce %s%s, which the shipped code does not have", k, g)
		case !ok2:
			r.fail("C21", "v3/templates", shipped.objPos(k), k, "the shipped code has %s%s, which the templates do not produce", k, h)
		case h != g:
			r.fail("C21", "v3/templates", shipped.objPos(k), k, "the shipped code has %s%s, the templates produce %s", k, h, g)
		}
	}
	r.count("exported functions compared", len(ks))
	// the templates' own declarations, from their syntax
	tm, n := templateMethods(filepath.Join(repo, "v3"))
	for k, pos := range tm {
		r.checked++
		if _, ok := have[k]; !ok {
			r.fail("C21", "v3/templates", pos, k, "the hand-written template function %s is not in the shipped code", k)
		}
	}
	r.count("hand-written template functions", len(tm))
	r.count("template files", n)
	// directives, for as long as they have the form the generator documents
	dir := directives(filepath.Join(repo, "v3"))
	seen := map[string]string{}
	for _, d := range dir {
		r.checked++
		k := d.typ + "." + d.rw + d.kind + d.w + d.order
		if o, dup := seen[k]; dup {
			r.fail("C21", "v3/directives", d.pos, k, "the directive for %s repeats the one at %s", k, o)
		}
		seen[k] = d.pos
		for _, m := range []string{k, k + "Next"} {
			if _, ok := have[m]; !ok {
				r.fail("C21", "v3/directives", d.pos, m, "the directive has no shipped method %s", m)
			}
		}
	}
	r.count("generator directives", len(dir))
	r.notes = append(r.notes, fmt.Sprintf("v3: %d matrix entries, %d exported functions compared with the templates' output, %d template functions, %d directives", len(want), len(ks), len(tm), len(dir)))
	return r
}

// templateMethods parses the templates and lists their exported functions.
func templateMethods(dir string) (map[string]string, int) {
	out := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(dir, "_*.go"))
	fset := token.NewFileSet()
	for _, f := range fs {
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			continue
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !fd.Name.IsExported() {
				continue
			}
			n := fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					n = id.Name + "." + n
				}
			}
			p := fset.Position(fd.Pos())
			out[n] = fmt.Sprintf("v3/%s:%d", filepath.Base(p.Filename), p.Line)
		}
	}
	return out, len(fs)
}

type directive struct{ typ, rw, kind, w, order, pos string }

var directiveRe = regexp.MustCompile(`^//generator:complex (Buffer|MiniBuffer) (Read|Write) ([UIF]) (16|32|64) (LE|BE)$`)

func directives(dir string) []directive {
	var out []directive
	fs, _ := filepath.Glob(filepath.Join(dir, "_*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for i, l := range strings.Split(string(b), "\n") {
			if m := directiveRe.FindStringSubmatch(strings.TrimRight(l, "\r")); m != nil {
				out = append(out, directive{m[1], m[2], m[3], m[4], m[5], fmt.Sprintf("v3/%s:%d", filepath.Base(f), i+1)})
			}
		}
	}
	return out
}
