package main

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Note is an effect outside the receiver met during an analysis.
type Note struct {
	Kind, Msg, Fn string
}

type accessKey struct {
	field string
	write bool
	pos   string
	fn    string
}

// Trace collects what one analysis met.
type Trace struct {
	funcs       map[*ssa.Function]bool
	notes       map[Note]bool
	globalReads map[*ssa.Global]bool
	initPhase   bool
	names       map[int]string
	fields      []string
	ext         map[ObjID]map[string]bool // writes to pre-existing caller memory
	unl         map[accessKey]bool
	acc         map[accessKey]bool
	locks       int
	exitTest    []exitTest
}

type exitTest struct {
	fi  *fnInfo
	l   *loop
	hit *bool
}

func newTrace() *Trace {
	return &Trace{funcs: map[*ssa.Function]bool{}, notes: map[Note]bool{}, globalReads: map[*ssa.Global]bool{}, names: map[int]string{},
		ext: map[ObjID]map[string]bool{}, unl: map[accessKey]bool{}, acc: map[accessKey]bool{}}
}

func (t *Trace) arrName(id int) string {
	if n, ok := t.names[id]; ok {
		return n
	}
	return "mem" + itoa(id)
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

func (t *Trace) external(fn *ssa.Function, pos token.Pos, e *Engine) {
	t.notes[Note{"external", "call of " + fn.String() + " at " + e.posStr(pos), fn.String()}] = true
}

func (t *Trace) note(kind, msg string, fn *ssa.Function) {
	t.notes[Note{kind, msg, fn.String()}] = true
}

func (t *Trace) fieldName(i int) string {
	if i < len(t.fields) {
		return t.fields[i]
	}
	return "field" + itoa(i)
}

func (t *Trace) extWrite(o ObjID, name, pos string) {
	if t.ext[o] == nil {
		t.ext[o] = map[string]bool{}
	}
	t.ext[o][name+" at "+pos] = true
}

func (t *Trace) unlocked(field string, write bool, pos string, fn *ssa.Function) {
	t.unl[accessKey{field, write, pos, fn.String()}] = true
}

func (t *Trace) access(field string, write bool, pos string, fn *ssa.Function) {
	t.acc[accessKey{field, write, pos, fn.String()}] = true
}

func (t *Trace) lock(bool, string) { t.locks++ }

// noteTest marks the loops whose exit test needed more than constants to decide.
func (t *Trace) noteTest(e *Engine, fi *fnInfo, blk *ssa.BasicBlock) {
	for _, x := range t.exitTest {
		if x.fi != fi || !x.l.blocks[blk] {
			continue
		}
		for _, s := range blk.Succs {
			if !x.l.blocks[s] && fi.canR[s] {
				*x.hit = true
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// fork returns a trace that can be dropped or merged back.
func (t *Trace) fork() *Trace {
	n := newTrace()
	n.names, n.fields, n.initPhase = t.names, t.fields, t.initPhase
	n.exitTest = t.exitTest
	return n
}

func (t *Trace) merge(o *Trace) {
	for k := range o.funcs {
		t.funcs[k] = true
	}
	for k := range o.notes {
		t.notes[k] = true
	}
	for k := range o.globalReads {
		t.globalReads[k] = true
	}
	for k, m := range o.ext {
		if t.ext[k] == nil {
			t.ext[k] = map[string]bool{}
		}
		for s := range m {
			t.ext[k][s] = true
		}
	}
	for k := range o.unl {
		t.unl[k] = true
	}
	for k := range o.acc {
		t.acc[k] = true
	}
	t.locks += o.locks
}
