package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// caseProps are the properties decided by contract cases.
var caseProps = map[string]bool{
	"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true,
	"C11": true, "C12": true, "C13": true, "C14": true, "C15": true, "C16": true, "C17": true, "C18": true, "C19": true, "C24": true, "C25": true, "C30": true, "C32": true,
}

// regenProps are the guarantees the regenerated v3 must meet (C22).
var regenProps = map[string]bool{
	"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true,
	"C11": true, "C12": true, "C13": true, "C14": true,
}

// portProps are the guarantees that must hold on 32-bit platforms too (C34).
var portProps = map[string]bool{"C18": true, "C25": true, "C30": true, "C32": true}

func init() {
	for p := range regenProps {
		portProps[p] = true
	}
}

// partsOf returns the guarantees that the property asks for in another setting
// and how a breach of one is described.
func partsOf(prop string) (map[string]bool, string) {
	switch prop {
	case "C22":
		return regenProps, "regenerated code breaks "
	case "C34":
		return portProps, "on 32-bit platforms breaks "
	}
	return nil, ""
}

// ruleProps are decided (also) by structural rules.
var ruleProps = map[string]bool{"C20": true, "C21": true, "C22": true, "C23": true, "C24": true, "C26": true, "C28": true, "C29": true, "C31": true, "C33": true}

// floors is the least number of contract cases each property must have: fewer
// means the case tables or the enumeration broke, and the check must not pass.
var floors = map[string]int{
	"C01": 318,
	"C02": 287,
	"C03": 564,
	"C04": 535,
	"C05": 14202,
	"C06": 1169,
	"C07": 434,
	"C08": 12105,
	"C09": 34,
	"C10": 69,
	"C11": 14,
	"C12": 15,
	"C13": 98,
	"C14": 87,
	"C15": 398,
	"C16": 398,
	"C17": 381,
	"C18": 155,
	"C19": 1158,
	"C22": 5188,
	"C24": 1059,
	"C25": 1158,
	"C30": 4900,
	"C32": 80,
	"C34": 15000,
}

var trustedBase = []string{
	"golang.org/x/tools/go/packages and go/ssa (v0.52.0): parsing, type checking and SSA construction",
	"the abstract interpreter in /verif/checker: transfer functions, loop summarisation, linear-arithmetic and BDD decision procedures",
	"the Go language semantics of each SSA instruction as modelled there (64-bit int, wrapping arithmetic, run-time panics)",
	"the contract tables in /verif/checker/spec.go, written from the documentation",
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

// known is one listed finding.
type known struct {
	prop, key, text string
}

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 {
			continue
		}
		k := known{text: strings.Join(f[3:], " ")}
		k.prop = strings.TrimPrefix(f[1], "property=")
		k.key = strings.TrimPrefix(f[2], "key=")
		out = append(out, k)
	}
	return out
}

func runCheck(prop, tier, repo, verif string) int {
	start := time.Now()
	if prop == "C34" {
		onPlatform("386")
	}
	parts, partText := partsOf(prop)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var viols []Viol
	fatal := func(format string, a ...interface{}) {
		viols = append(viols, Viol{Prop: prop, Case: "load", What: fmt.Sprintf(format, a...), Pos: "?"})
	}
	scratch, err := os.MkdirTemp("", "crunchcheck-")
	if err != nil {
		fatal("no scratch directory: %v", err)
	} else {
		defer os.RemoveAll(scratch)
		_ = os.Chmod(scratch, 0o755)
	}
	progs := map[string]*Program{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	load := func(name, root, dir string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p, err := loadProgram(root, dir, name)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				fatal("%s cannot be analysed: %v", name, err)
				return
			}
			progs[name] = p
		}()
	}
	vers := []string{"v1", "v2", "v3"}
	need := vers
	switch prop {
	case "C15", "C16", "C17":
		need = []string{"v1", "v2"}
	case "C09", "C11":
	case "C12", "C26":
		need = []string{"v2", "v3"}
	case "C18":
		need = []string{"v1"}
	case "C21":
		need = []string{"v3"}
	case "C22", "C23", "C28", "C29", "C31", "C33":
		need = nil
	}
	for _, v := range need {
		load(v, repo, filepath.Join(repo, v))
	}
	if prop == "C23" || prop == "C28" || prop == "C29" || prop == "C31" || prop == "C33" {
		load("generation", repo, filepath.Join(repo, "generation"))
	}
	regen := ""
	if prop == "C20" || prop == "C21" || prop == "C22" {
		dir, err := regenerate(repo, filepath.Join(scratch, "regen"))
		if err != nil {
			mu.Lock()
			fatal("v3 cannot be regenerated: %v", err)
			mu.Unlock()
		} else {
			regen = dir
			load("regenerated", filepath.Join(scratch, "regen"), dir)
		}
	}
	wg.Wait()
	analysed := map[string]interface{}{}
	var cases []Case
	if caseProps[prop] || prop == "C34" {
		for _, v := range need {
			if p := progs[v]; p != nil {
				for _, c := range buildCases(p, v, tier) {
					for _, q := range c.Props {
						if q == prop || prop == "C05" && q == "C03" || prop == "C34" && portProps[q] {
							cases = append(cases, c)
							break
						}
					}
				}
			}
		}
	}
	if prop == "C22" && progs["regenerated"] != nil {
		for _, c := range buildCases(progs["regenerated"], "v3", tier) {
			for _, q := range c.Props {
				if regenProps[q] {
					cases = append(cases, c)
					break
				}
			}
		}
	}
	if len(viols) == 0 && len(cases) < floors[prop] {
		fatal("only %d contract cases were enumerated, expected at least %d", len(cases), floors[prop])
	}
	jobs := runCases(cases, func(v Viol) bool {
		return v.Key == "" && (v.Prop == prop || parts[v.Prop])
	})
	skipped := 0
	obl := map[string]int{}
	funcs := map[string]bool{}
	var samples []string
	for _, j := range jobs {
		if j.scn.skipped {
			skipped++
		}
		for k, n := range j.scn.obl {
			obl[k] += n
		}
		for f := range j.scn.funcs {
			funcs[f] = true
		}
		for _, v := range j.scn.viol {
			switch {
			case v.Prop == prop:
				viols = append(viols, v)
			case parts[v.Prop]:
				v.What = partText + v.Prop + ": " + v.What
				v.Prop = prop
				viols = append(viols, v)
			}
		}
	}
	for i := 0; i < len(cases) && len(samples) < 12; i += 1 + len(cases)/12 {
		samples = append(samples, cases[i].ID)
	}
	if prop == "C05" {
		vs, n := nextPairs(jobs)
		viols = append(viols, vs...)
		obl[prop] += n
	}
	obligations := obl[prop]
	for k := range parts {
		obligations += obl[k]
	}
	rules := &ruleResult{}
	switch prop {
	case "C20":
		if m := unsafeSelfTest(); m != "" {
			fatal("self-test: %s", m)
		}
		for _, v := range append(append([]string{}, need...), "regenerated") {
			if p := progs[v]; p != nil {
				rules.merge(ruleUnsafe(p, v))
			}
		}
	case "C21":
		if progs["v3"] != nil && progs["regenerated"] != nil {
			rules.merge(ruleAPI(progs["v3"], progs["regenerated"], repo))
		}
	case "C23":
		if p := progs["generation"]; p != nil {
			rules.merge(ruleGenerator(p))
		}
	case "C28", "C29":
		if p := progs["generation"]; p != nil {
			rules.merge(ruleFiles(p, prop))
		}
	case "C31":
		if p := progs["generation"]; p != nil {
			rules.merge(ruleDepends(p))
		}
	case "C33":
		if p := progs["generation"]; p != nil {
			rules.merge(ruleVerbatim(p))
		}
	case "C24":
		for _, v := range need {
			if p := progs[v]; p != nil {
				rules.merge(ruleErrors(p, v))
			}
		}
	case "C26":
		for _, v := range need {
			if p := progs[v]; p != nil {
				rules.merge(ruleAlloc(p, v, filepath.Join(repo, v), filepath.Join(scratch, "esc-"+v)))
			}
		}
	}
	_ = regen
	viols = append(viols, rules.viol...)
	obligations += rules.checked
	if len(viols) == 0 && obligations == 0 {
		fatal("nothing was checked")
	}
	// listed findings
	var fresh []Viol
	hit := map[string]int{}
	ks := loadKnown(filepath.Join(verif, "known_findings.txt"))
	for _, v := range viols {
		found := false
		for _, k := range ks {
			if k.prop == prop && v.Key != "" && k.key == v.Key {
				hit[k.key]++
				found = true
			}
		}
		if !found {
			fresh = append(fresh, v)
		}
	}
	for _, k := range ks {
		if k.prop == prop && hit[k.key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, k.key, k.text)
		}
	}
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].Case < fresh[j].Case })
	evDir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, prop+".violations.json")
	if len(fresh) > 0 {
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "violations": fresh,
			"rerun": fmt.Sprintf("cd /verif && sh check.sh -property %s -tier %s", prop, tier)}, "", " ")
		_ = os.WriteFile(replay, append(b, '\n'), 0o644)
		seen := map[string]bool{}
		n := 0
		for _, v := range fresh {
			k := v.Pos + v.What
			if seen[k] {
				continue
			}
			seen[k] = true
			n++
			if n > 12 {
				fmt.Printf("  ... %d reports in all, see %s\n", len(fresh), replay)
				break
			}
			fmt.Printf("  %s: %s: %s (%s)\n", v.Pos, v.Fn, v.What, v.Case)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	} else {
		_ = os.Remove(replay)
	}
	// evidence
	lv, note := levelOf(prop)
	cov := map[string]interface{}{}
	for k, v := range analysed {
		cov[k] = v
	}
	cov["obligations"] = obligations
	cov["discharged"] = obligations - min(obligations, len(viols))
	if len(cases) > 0 {
		cov["contract_cases"] = len(cases)
		cov["functions_analysed"] = len(funcs)
		cov["samples"] = samples
	}
	if skipped > 0 {
		cov["cases_skipped"] = skipped
		fmt.Printf("%s: %d cases were left out once %d violations were found or the time was up\n", prop, skipped, enoughViolations)
	}
	if len(rules.analysed) > 0 {
		cov["analysed"] = rules.analysed
	}
	if len(rules.notes) > 0 {
		cov["rule_summary"] = rules.notes
	}
	if len(hit) > 0 {
		cov["known_findings"] = sortedKeys(hit)
	}
	cov["rule"] = note
	cov["checker_cmd"] = fmt.Sprintf("sh check.sh -property %s -tier %s", prop, tier)
	cov["trusted_base"] = trustedBase
	cov["explanation"] = note
	var mods []string
	for _, n := range sortedKeys(progs) {
		mods = append(mods, fmt.Sprintf("%s (%d own functions)", n, len(progs[n].ownFuncs())))
	}
	cov["packages_analysed"] = mods
	ev := evidence{Property: prop, Tier: tier, Seed: seed, Level: lv, Coverage: cov, Assumptions: assumptions(prop),
		WallS: time.Since(start).Seconds(), Violations: len(fresh)}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("evidence:", err)
	}
	fmt.Printf("%s: %d contract cases, %d obligations, %d violations, %d listed findings, %.1fs on %d CPUs\n", prop, len(cases), obligations, len(fresh), len(hit), time.Since(start).Seconds(), runtime.NumCPU())
	if len(fresh) > 0 {
		return 1
	}
	return 0
}

// accessProps say what an access does to or yields from its window.
var accessProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C07": true, "C08": true, "C10": true}

// nextPairs compares each sequential access with its positional counterpart: a
// case in which only the sequential form misses its access contract is a
// sequential form that does not act like its counterpart at the cursor.
func nextPairs(jobs []job) (out []Viol, compared int) {
	split := func(id string) (string, bool) {
		i := strings.Index(id, "/")
		if i < 0 {
			return "", false
		}
		base := strings.TrimSuffix(id[:i], "Next")
		return base + id[i:], base != id[:i]
	}
	broken := map[string]map[string]bool{}
	ran := map[string]bool{}
	for _, j := range jobs {
		if j.scn.skipped {
			continue
		}
		ran[j.c.ID] = true
		for _, v := range j.scn.viol {
			if accessProps[v.Prop] {
				if broken[j.c.ID] == nil {
					broken[j.c.ID] = map[string]bool{}
				}
				broken[j.c.ID][v.Prop] = true
			}
		}
	}
	for _, j := range jobs {
		pos, next := split(j.c.ID)
		if !next || !ran[j.c.ID] || !ran[pos] {
			continue
		}
		compared++
		for _, v := range j.scn.viol {
			if accessProps[v.Prop] && !broken[pos][v.Prop] {
				v.What = "does not act like its positional counterpart at the cursor: " + v.What
				v.Prop, v.Key = "C05", ""
				out = append(out, v)
			}
		}
	}
	return out, compared
}

func levelOf(prop string) (string, string) {
	switch prop {
	case "C20":
		return "other", "every conversion out of unsafe.Pointer in the SSA form of v1, v2, v3 and regenerated v3 is traced to the pointer it was made from; source and target must be plain numeric types of equal size and no stricter alignment (amd64 and 386); uintptr round trips, unsafe.Slice/String/Add/SliceData/StringData, reflect headers, linkname, cgo and assembly are ruled out; a built-in positive and negative sample is judged first"
	case "C21":
		return "other", "type-checked exported API of shipped v3 against the promised matrix (exact signatures), against the exported API of the source the templates generate, against the templates' own function declarations and against the generator directives, each in both directions"
	case "C22":
		return "proof", "the project's generator is built and run as a build step on a scratch copy of the templates; every C01-C14 contract case is then decided on the source it wrote, exactly as for the shipped code"
	case "C23":
		return "other", "every external call reachable from the generator's main is classified; for each output opened, the path is evaluated symbolically for a template named \"_\"+S+\".go\", the open flags or a truncation must drop old content, the data must be the whole generated text of the same template, and every error-free path through the loop must write it exactly once; every name entering the template set must be tested for \"_\" and \".go\""
	case "C28":
		return "other", "for every operation on a single file that main reaches inside a loop over files, in every calling context: every path from its failing is followed over known-nil/known-set errors and flags, into and out of helpers and deferred functions, to the end of that file's round; the path must not leave the loop, return, panic or exit, must leave the loop able to run again, and after a failed open or read the file must not be in the template set"
	case "C29":
		return "other", "for every loop (or callback) in which names enter the template set: every path of one round for a directory entry named \"_\"+S+\".go\" that is no directory and whose operations succeed is followed, deciding conditions on the name symbolically; every path must take the file up and go on to the next; directory listings must be complete"
	case "C31":
		return "other", "backward slice (data and control dependences through calls, closures, variables and objects) of everything stored as a template's text; the slice must contain no source that differs between runs, and for every loop over templates or a map no value carried between rounds, no change of an object that outlives the round, and no look at another template"
	case "C33":
		return "other", "every value stored as a template's text is followed back through locals, parameters, results, fields and buffers to the read it comes from; on the way only copies, replacements of the matches of the magic comments' expression, and loops copying the text between all matches piece by piece are accepted; the expression, compiled to an automaton, must match whole lines only, only lines beginning as magic comments do, and every documented magic comment"
	case "C34":
		return "proof", "the same contract cases as for C01-C14, C18, C25, C30 and C32, decided by the same abstract interpretation on the source as it is type-checked and built to SSA for a platform with 32-bit int, uint and uintptr: conversions to them truncate, lengths and indices are at most 2^31-1, byte offsets and counts range over all 32-bit values, bit positions over all 35-bit values"
	case "C26":
		return "other", "for every function reachable on a path to a normal return from an operation that must not allocate: every SSA instruction that can allocate is listed and must be shown not to (compiler escape analysis of the same source for variables, literals and interface conversions; make with variable size, append, maps, string conversions, dynamic and unknown calls are refused)"
	case "C24":
		return "proof", "error variables: values from abstract interpretation of package initialisation, pairwise different, never assigned elsewhere, rendering evaluated from Error's SSA form; panics: every outcome of every operation on arbitrary arguments that is an explicit panic carries one of those values"
	}
	return "proof", "each contract case is one operation on an arbitrary consistent receiver (any contents, length, spare storage and cursors) and a class of arguments covering all values; all paths of the SSA form are interpreted over linear facts and bit-exact values, loops by inductive summaries with a rank; every outcome must meet the contract, and anything not established counts as a violation"
}

func assumptions(prop string) []string {
	out := []string{"receiver is non-nil and consistent at entry: capacity fields match the slice (C06 shows every operation preserves this), cursors arbitrary", "slice and allocation sizes are at most 2^47 bytes", "64-bit target (int is 64 bits)"}
	switch prop {
	case "C20", "C21", "C23", "C28", "C29", "C31", "C33":
		return []string{"the Go type checker and SSA builder represent the source faithfully"}
	case "C26":
		return []string{"the installed compiler's escape analysis (amd64) decides heap placement", "operations run on valid arguments (success path)"}
	case "C24":
		out = append(out, "fmt.Sprintf renders %s and %v of strings verbatim")
	case "C15", "C16", "C17":
		out = append(out, "sync.Mutex behaves as documented; no other code locks the buffer's mutex during the call", "slices handed to or from the caller are the caller's to synchronise")
	case "C13":
		out = append(out, "constructors are analysed for 0 to 4 slices (quick) or 0 to 7 (thorough), each of any length and nil-ness, and for further counts chosen from the code: around every constant and array length the constructor uses, 12 and 33, and 256 when it keeps an 8-bit counter (with more than 16 slices, all but the first and last have length 1)")
	case "C34":
		out[1], out[2] = "slice and allocation sizes are at most 2^31-1 bytes", "32-bit target (GOARCH=386; int is 32 bits)"
	case "C22":
		out = append(out, "the generator is deterministic")
	}
	return out
}
