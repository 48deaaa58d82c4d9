package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ruleResult is what one structural rule found.
type ruleResult struct {
	viol     []Viol
	checked  int      // obligations examined
	notes    []string // what was analysed
	analysed map[string]int
}

func (r *ruleResult) fail(prop, rule, pos, fn, format string, a ...interface{}) {
	r.viol = append(r.viol, Viol{Prop: prop, Case: rule, What: fmt.Sprintf(format, a...), Pos: pos, Fn: fn})
}

func (r *ruleResult) count(k string, n int) {
	if r.analysed == nil {
		r.analysed = map[string]int{}
	}
	r.analysed[k] += n
}

func (r *ruleResult) merge(o *ruleResult) {
	r.viol = append(r.viol, o.viol...)
	r.checked += o.checked
	r.notes = append(r.notes, o.notes...)
	for k, n := range o.analysed {
		r.count(k, n)
	}
}

// ruleErrors decides the declaration part of C24 for one version: error values
// are distinct, never reassigned, and render as "crunch: <scope>: <message>".
func ruleErrors(p *Program, ver string) *ruleResult {
	r := &ruleResult{}
	et := findNamed(p, "Error")
	if et == nil {
		r.fail("C24", ver+"/errors", "?", "", "type Error is missing")
		return r
	}
	s := newScn(p, ver, "Error", "Error", "values")
	var ierr error
	guardRule(r, "C24", ver+"/errors", func() { ierr = s.initPkg() })
	if ierr != nil {
		r.fail("C24", ver+"/errors", "?", "", "cannot be established: %v", ierr)
		return r
	}
	var names []string
	for _, m := range p.main.Members {
		if g, ok := m.(*ssa.Global); ok && types.Identical(g.Type().(*types.Pointer).Elem(), et) {
			names = append(names, g.Name())
		}
	}
	sort.Strings(names)
	r.count("error variables of "+ver, len(names))
	for i, a := range names {
		g := p.main.Members[a].(*ssa.Global)
		r.checked++
		if p.assigned(g) {
			r.fail("C24", ver+"/errors", p.pos(g.Pos()), a, "error value %s is assigned to (or its address is taken) after initialisation", a)
		}
		va, ok := s.errs[a]
		if !ok {
			r.fail("C24", ver+"/errors", p.pos(g.Pos()), a, "the value of %s cannot be established", a)
			continue
		}
		for _, b := range names[:i] {
			r.checked++
			vb, ok := s.errs[b]
			if ok && s.e.sameVal(va, vb) {
				r.fail("C24", ver+"/errors", p.pos(g.Pos()), a, "%s and %s are equal, so a recovered value does not identify the failure", a, b)
			}
		}
	}
	// rendering
	fn := p.method("Error", "Error")
	if fn == nil {
		r.fail("C24", ver+"/errors", "?", "", "method Error.Error is missing")
		return r
	}
	stt, ok := et.Underlying().(*types.Struct)
	obj, _ := fn.Object().(*types.Func)
	if !ok || obj == nil || p.prog.FuncValue(obj) == nil {
		r.fail("C24", ver+"/errors", p.pos(fn.Pos()), fn.String(), "Error is not a struct with a declared Error method")
		return r
	}
	base := p.prog.FuncValue(obj)
	se := &strEval{own: p.ownFn}
	isRecv := func(x fval) bool {
		x = se.resolve(x)
		if x.v == base.Params[0] {
			return true
		}
		al, ok := x.v.(*ssa.Alloc)
		if !ok {
			return false
		}
		n := 0
		for _, u := range *al.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr != al || se.resolve(fval{u.Val, x.fr}).v != base.Params[0] {
					return false
				}
				n++
			case *ssa.FieldAddr:
				for _, w := range *u.Referrers() {
					if l, ok := w.(*ssa.UnOp); !ok || l.Op != token.MUL {
						return false
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return n == 1
	}
	se.leaf = func(x fval) ([]piece, bool) {
		switch v := x.v.(type) {
		case *ssa.Field:
			if isRecv(fval{v.X, x.fr}) {
				return []piece{{sym: itoa(v.Field)}}, true
			}
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL && isRecv(fval{fa.X, x.fr}) {
				return []piece{{sym: itoa(fa.Field)}}, true
			}
		}
		return nil, false
	}
	var outs [][]piece
	for _, b := range base.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		ps, ok := se.str(fval{ret.Results[0], &frame{fn: base}})
		if !ok {
			r.fail("C24", ver+"/errors", p.pos(ret.Pos()), base.String(), "the rendering of an error cannot be established")
			continue
		}
		outs = append(outs, ps)
	}
	if len(outs) == 0 {
		r.fail("C24", ver+"/errors", p.pos(fn.Pos()), base.String(), "no return of Error() found")
	}
	for _, a := range names {
		v, ok := s.errs[a]
		if !ok {
			continue
		}
		for _, ps := range outs {
			r.checked++
			got := ""
			known := true
			for _, q := range ps {
				if q.sym == "" {
					got += q.lit
					continue
				}
				i, _ := strconv.Atoi(q.sym)
				t, ok := v.F[i].(Str)
				known = known && ok
				got += t.S
			}
			pos := p.pos(p.main.Members[a].Pos())
			switch w, listed := errorTexts[a]; {
			case !known:
				r.fail("C24", ver+"/errors", pos, a, "the text of %s cannot be established", a)
			case listed && got != "crunch: "+w[0]+": "+w[1]:
				r.fail("C24", ver+"/errors", pos, a, "%s renders as %q, want %q", a, got, "crunch: "+w[0]+": "+w[1])
			case !listed && !renderRe.MatchString(got):
				r.fail("C24", ver+"/errors", pos, a, "%s renders as %q, which is not \"crunch: <scope>: <message>\"", a, got)
			}
		}
	}
	_ = stt
	r.notes = append(r.notes, fmt.Sprintf("%s: %d error values (%s), %d return paths of Error()", ver, len(names), strings.Join(names, ", "), len(outs)))
	return r
}

var renderRe = regexp.MustCompile(`^crunch: [^ :]+: .+$`)

// errorTexts is the scope and message of each documented error value.
var errorTexts = map[string][2]string{
	"BufferOverreadError":           {"buffer", "read exceeds buffer capacity"},
	"BufferUnderreadError":          {"buffer", "read offset is less than zero"},
	"BufferOverwriteError":          {"buffer", "write offset exceeds buffer capacity"},
	"BufferUnderwriteError":         {"buffer", "write offset is less than zero"},
	"BufferInvalidIntegerSizeError": {"buffer", "invalid integer size specified"},
	"BufferInvalidEndiannessError":  {"buffer", "invalid endianness specified"},
	"BufferInvalidByteCountError":   {"buffer", "invalid byte count requested"},
	"BufferInvalidBitError":         {"buffer", "invalid bit value specified"},
	"BytesBufNegativeReadError":     {"bytesbuf", "reader returned negative count from Read"},
}

// guardRule turns an analysis failure into a violation.
func guardRule(r *ruleResult, prop, rule string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			r.fail(prop, rule, "?", "", "cannot be established: %v", x)
		}
	}()
	f()
}
