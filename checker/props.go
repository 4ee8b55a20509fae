package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

// propDef: how a property is decided.
type propDef struct {
	id     string
	title  string
	rule   string
	jobs   func(tier string) []string
	floors map[string]int
	assume []string
}

var otherJobs = map[string]func(in *Interp, rep *reporter){}

func otherJobNames() []string {
	var out []string
	for k := range otherJobs {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func allJobs() []string { return append(parserJobs(), otherJobNames()...) }

func propByID(id string) *propDef {
	for _, p := range propDefs {
		if p.id == id {
			return p
		}
	}
	return nil
}

var baseAssume = []string{
	"the Go compiler, runtime and standard library behave as documented; library functions are represented by hand-written transfer functions",
	"the analysis is of type-checked SSA of the current working tree; test files, cgo, unsafe and assembly are not in it",
}

func writeEvidence(pd *propDef, tier, verif string, stats map[string]int, njobs, nviol int, errs []string, und []finding, known map[string]bool, wall float64, rr *runResult) {
	cov := map[string]interface{}{"explanation": pd.rule, "jobs": njobs, "tree": treeHash()}
	for k, n := range stats {
		cov[k] = n
	}
	if len(errs) > 0 {
		cov["not_decided"] = errs
	}
	var us []string
	for i, f := range und {
		if i < 20 {
			us = append(us, fmt.Sprintf("%s %s %s: %s", f.Kind, f.Pos, f.Fn, clip(f.Detail, 200)))
		}
	}
	if len(us) > 0 {
		cov["undecided_constructs"] = us
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		cov["known_findings_seen"] = ks
	}
	var sm []string
	for _, r := range rr.results {
		if len(sm) < 5 && len(r.Fns) > 3 {
			sm = append(sm, fmt.Sprintf("%s: %v; functions %d", r.Job, r.Stats, len(r.Fns)))
		}
	}
	cov["samples"] = sm
	ev := map[string]interface{}{
		"property": pd.id, "tier": tier, "seed": 1, "level": "other", "coverage": cov,
		"assumptions": append(append([]string(nil), baseAssume...), pd.assume...),
		"wall_s":      wall, "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, pd.id+".json"), append(b, '\n'), 0o644)
}

func parserOnly(tier string) []string { return parserJobs() }

func parserAnd(more ...string) func(string) []string {
	return func(string) []string { return append(append([]string(nil), more...), parserJobs()...) }
}

func only(jobs ...string) func(string) []string {
	return func(string) []string { return append([]string(nil), jobs...) }
}

func reverseJobs(tier string) []string {
	out := []string{"effects", "maps"}
	for _, j := range parserJobs() {
		out = append(out, "rev."+j)
	}
	return append(out, "rev.packet", "rev.packets")
}

var specFloors = map[string]int{"roots": 600, "dumps matched": 1500, "rejections matched": 500}

var propDefs = []*propDef{
	{id: "C01", title: "No input makes the program panic", rule: "run-time-error obligations (index, slice, nil, assertion, division, allocation) of every function reachable from the parsers are discharged for every body, option combination and session state", jobs: parserAnd("cli", "packet", "packets", "render", "armor", "octets"), floors: map[string]int{"roots": 600, "obligations": 1000}},
	{id: "C02", title: "Truncated data is rejected, complete data is accepted", rule: "for every outcome of every parser: it reports an error exactly when the specification of the packet type finds a required field cut off", jobs: parserOnly, floors: specFloors},
	{id: "C03", title: "Failure is never reported as success", rule: "on every path of the program the exit status is non-zero exactly if an operation failed, the error is written to the error output and nothing to the standard output", jobs: only("cli", "effects"), floors: map[string]int{}},
	{id: "C04", title: "Octets are shown exactly when the options ask for it", rule: "the dump string of every item equals the specified gate over the option bits of the hexadecimal octets; no other field of an item depends on an option other than UTC", jobs: parserOnly, floors: specFloors},
	{id: "C05", title: "Left-over octets are reported", rule: "every success outcome lists an item for the octets left over exactly when the specification computes a non-empty rest", jobs: parserOnly, floors: specFloors},
	{id: "C06", title: "The dump lists every field of the wire format", rule: "the item tree of every success outcome equals the tree the specification of the type computes from the same octets; the renderings of item trees show all of it", jobs: parserAnd("render"), floors: specFloors},
	{id: "C07", title: "Identifiers are shown with their registered names", rule: "every name shown for a packet, subpacket or algorithm identifier equals the registered name for all 256 values, with the documented fallback", jobs: parserOnly, floors: specFloors},
	{id: "C08", title: "Text is shown only if printable", rule: "every text shown from the input is gated by the UTF-8 check and passes the control character filter", jobs: parserOnly, floors: specFloors},
	{id: "C09", title: "The same input and options always give the same dump", rule: "no function of the library reads clock, random numbers or environment, starts goroutines or writes package variables; dumps do not depend on the order of map iteration", jobs: reverseJobs, floors: map[string]int{}},
	{id: "C10", title: "Dates are exact and belong to their own key or signature", rule: "every date shown equals the specified time of its four octets; session times after every packet equal the specified ones", jobs: parserOnly, floors: specFloors},
	{id: "C11", title: "Encrypted data is labelled by its session-key packet", rule: "session-key kind after every packet type equals the specified one", jobs: parserOnly, floors: specFloors},
	{id: "C12", title: "Compressed data is expanded within a limit", rule: "what is read, how much and which decompressor is chosen for tag 8 equals the specification", jobs: parserAnd("packet"), floors: map[string]int{"roots": 600}},
	{id: "C13", title: "Nothing outside is touched unless the command line asks for it", rule: "files opened, requests sent and clipboard reads on every path of every command are those the flags ask for; no function has other effects", jobs: only("cli", "effects"), floors: map[string]int{}},
	{id: "C14", title: "Requests ask for exactly the key named", rule: "method, URL, query, paging and context of every request equal the specified ones", jobs: only("cli"), floors: map[string]int{}},
	{id: "C15", title: "Every file and response that is opened is closed", rule: "every open event is followed by a close event on every path", jobs: only("cli"), floors: map[string]int{}},
	{id: "C16", title: "Packets come from the armor in the input, or else from the input itself", rule: "the lines picked out of a text of up to four lines of every kind equal the specified ones; the source of the packets on every path of making a parser is the decoded armor or the whole input as specified", jobs: only("armor"), floors: map[string]int{"outcomes": 300, "line classes": 300, "cases": 8}},
	{id: "C17", title: "Text and JSON show exactly the dump", rule: "the renderings of item trees with arbitrary fields (93 shapes) and arbitrary indent equal the specified text and the JSON of the same tree; field names of the JSON are those documented", jobs: only("render"), floors: map[string]int{"trees": 90, "renderings compared": 400, "encoded fields": 6}},
	{id: "C18", title: "The command line does what its documentation says", rule: "flags, options, input source and rendering on every path of every command equal the documented ones", jobs: only("cli", "render"), floors: map[string]int{}},
	{id: "C19", title: "Parsing always terminates", rule: "every loop reachable from the parsers has a bound known at entry or consumes input", jobs: parserOnly, floors: map[string]int{"roots": 600, "loops": 20}},
	{id: "C20", title: "Reading octets is exact and fails without moving", rule: "every operation of the octet reader, from every position of every buffer, gives the specified octets, moves to the specified position or fails where it stands", jobs: only("octets"), floors: map[string]int{"operations": 15, "cases": 25}},
	{id: "C21", title: "Displayed sizes are exact", rule: "every size or count shown equals the specified expression over the octets", jobs: parserOnly, floors: specFloors},
	{id: "C22", title: "The input octets are never modified", rule: "no store reachable from the parsers can reach an input buffer", jobs: parserOnly, floors: map[string]int{"roots": 600}},
	{id: "C23", title: "The dump covers the whole sequence of packets, in order", rule: "the items of every exit of the packet loops are one per packet of the input, and an exit without error is taken only at a clean end of the input", jobs: only("packet", "packets"), floors: map[string]int{"roots": 2}},
}
