package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownEntry struct {
	prop, id, text string
	fixed          bool
}

// known findings file: lines
//
//	known: property=C05 id=<violation id> <text>
//	fixed: property=C05 <commit> <text>
func loadKnown(path string) []knownEntry {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		f := strings.Fields(l)
		e := knownEntry{fixed: f[0] == "fixed:"}
		rest := []string{}
		for _, w := range f[1:] {
			switch {
			case strings.HasPrefix(w, "property="):
				e.prop = w[9:]
			case strings.HasPrefix(w, "id=") && e.id == "":
				e.id = w[3:]
			default:
				rest = append(rest, w)
			}
		}
		e.text = strings.Join(rest, " ")
		r = append(r, e)
	}
	return r
}

func matchID(pat, id string) bool {
	id = strings.ReplaceAll(id, " ", "_")
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(id, pat[:len(pat)-1])
	}
	return pat == id
}

type replayCase struct {
	Harness string     `json:"harness"`
	Inputs  []InputVal `json:"inputs"`
}

type replayFile struct {
	Property string     `json:"property"`
	ID       string     `json:"id"`
	Msg      string     `json:"message"`
	Where    string     `json:"where"`
	Harness  string     `json:"harness"`
	Inputs   []InputVal `json:"inputs"`
	Native   string     `json:"native_result"`
	How      string     `json:"how_to_replay"`
}

var ownRe = regexp.MustCompile(`(?m)^//verif:own`)

func cmdCheck(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: symgo check PROPERTY [quick|thorough]")
		return 2
	}
	prop := args[0]
	tier := envOr("VERIF_TIER", "quick")
	if len(args) > 1 {
		tier = args[1]
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	t0 := time.Now()
	root := envOr("VERIF_ROOT", "/verif")
	repo := envOr("VERIF_REPO", "/repo")
	limit := 150 * time.Second
	if tier == "thorough" {
		limit = 780 * time.Second
	}
	if s := os.Getenv("VERIF_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	// files with their own constants or substitutions (//verif:own) are loaded
	// separately
	var groups [][]string
	var rest []string
	hd := filepath.Join(root, "harness")
	for _, t := range topicsFor(hd, prop, nil) {
		src, _ := os.ReadFile(filepath.Join(hd, "h_"+t+".go"))
		if ownRe.Match(src) {
			groups = append(groups, []string{t})
		} else {
			rest = append(rest, t)
		}
	}
	if len(rest) > 0 {
		groups = append([][]string{rest}, groups...)
	}
	var hrs []*hRun
	dl := t0.Add(limit)
	skipped := []string{}
	dropped := map[string]string{}
	work0, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(work0)
	loaderOf := map[*hRun]*Loader{}
	workOf := map[*Loader]string{}
	var st Solver
	for gi, g := range groups {
		L, err := Load(repo, hd, g)
		if err != nil {
			fmt.Println("cannot load the tree:", err)
			return 2
		}
		workOf[L] = filepath.Join(work0, fmt.Sprint(gi))
		os.MkdirAll(workOf[L], 0755)
		for k, v := range L.dropped {
			dropped[k] = v
		}
		var mine []*hRun
		for _, h := range L.harnesses() {
			ok := false
			for _, p := range strings.Fields(h.doc["prop"]) {
				if p == prop {
					ok = true
				}
			}
			if !ok {
				continue
			}
			if h.doc["tier"] == "thorough" && tier != "thorough" {
				skipped = append(skipped, h.name)
				continue
			}
			if h.doc["tier"] == "quick" && tier != "quick" {
				continue
			}
			hr := newHRun(h, dl, tier == "thorough")
			if tier == "thorough" {
				delete(h.doc, "budget")
			}
			mine = append(mine, hr)
			loaderOf[hr] = L
		}
		if len(mine) > 0 {
			r := runHarnesses(L, mine, runCfg{workers: 8, deadline: dl})
			st.Queries += r.Queries
			st.Sat += r.Sat
			st.Unsat += r.Unsat
			st.Unk += r.Unk
			st.Cached += r.Cached
			st.Errors += r.Errors
			st.Fallbk += r.Fallbk
			st.IntQ += r.IntQ
			st.NarQ += r.NarQ
			st.Time += r.Time
		}
		hrs = append(hrs, mine...)
	}
	if len(hrs) == 0 {
		fmt.Printf("property %s: no harness applies to this tree (dropped: %v)\n", prop, dropped)
	}

	known := loadKnown(filepath.Join(root, "known_findings.txt"))
	exit := 0
	nviol := 0
	outDir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(outDir, 0755)
	var unconfirmed []string
	seenKnown := map[string]bool{}
	reported := map[string]bool{}
	for _, hr := range hrs {
		for _, v := range hr.viol {
			if reported[v.ID] {
				continue
			}
			L := loaderOf[hr]
			res, _, err := L.replayNative(hr.h.name, v.Inputs, workOf[L])
			// what depends on the order of goroutines may need several runs
			for k := 0; k < retries(hr.h.doc["retry"]) && err == nil && res == "pass"; k++ {
				res, _, err = L.replayNative(hr.h.name, v.Inputs, workOf[L])
			}
			if err != nil {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s: %v", hr.h.name, v.ID, err))
				continue
			}
			confirmed := strings.HasPrefix(res, "assert ") || strings.HasPrefix(res, "panic ") || strings.HasPrefix(res, "crash ")
			id := v.ID
			if strings.HasPrefix(res, "assert ") && strings.HasPrefix(v.ID, "panic:") {
				id = strings.TrimPrefix(res, "assert ")
			}
			if !confirmed {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s (native: %s)", hr.h.name, v.ID, res))
				continue
			}
			isKnown := false
			for _, k := range known {
				if !k.fixed && k.prop == prop && matchID(k.id, id) {
					isKnown = true
					if !seenKnown[k.id] {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
						seenKnown[k.id] = true
					}
				}
			}
			if isKnown {
				continue
			}
			reported[v.ID] = true
			nviol++
			rf := replayFile{Property: prop, ID: v.ID, Msg: v.Msg, Where: v.Where, Harness: hr.h.name, Inputs: v.Inputs, Native: res,
				How: "cd /verif && ./build.sh && ./bin/symgo replay <this file>"}
			b, _ := json.MarshalIndent(rf, "", " ")
			fn := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", prop, nviol))
			os.WriteFile(fn, b, 0644)
			fmt.Printf("  %s: %s in %s at %s; native replay: %s\n", v.ID, v.Msg, hr.h.name, v.Where, res)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, fn)
			exit = 1
		}
	}

	// validate completed paths against the real code
	validated, disagreed := 0, []string{}
	casesOf := map[*Loader][]replayCase{}
	var order []*Loader
	for _, hr := range hrs {
		for _, smp := range hr.samples {
			L := loaderOf[hr]
			if casesOf[L] == nil {
				order = append(order, L)
			}
			casesOf[L] = append(casesOf[L], replayCase{hr.h.name, smp})
		}
	}
	for _, L := range order {
		cases := casesOf[L]
		if !time.Now().Before(t0.Add(limit + 60*time.Second)) {
			break
		}
		results, err := L.replayBatch(cases, workOf[L])
		if err != nil {
			unconfirmed = append(unconfirmed, "validation: "+err.Error())
		}
		for i, r := range results {
			if r == "pass" {
				validated++
			} else if r != "" && !strings.HasPrefix(r, "stop ") {
				disagreed = append(disagreed, fmt.Sprintf("%s %v: %s", cases[i].Harness, cases[i].Inputs, r))
			}
		}
	}

	// evidence
	states, trans, obl, impl, paths := 0, 0, 0, 0, 0
	complete := true
	var samples []any
	var bounds []map[string]any
	for _, hr := range hrs {
		states += hr.paths + hr.merges
		trans += hr.forks + hr.merges
		obl += hr.nassert
		impl += hr.nimplicit
		paths += hr.paths
		inc := map[string]int{}
		for e, n := range hr.ends {
			if e != "ok" && !strings.HasPrefix(e, "assume") && !strings.HasPrefix(e, "os.Exit") && e != "violation" && e != "dead path" && e != "dead index" {
				inc[e] = n
			}
		}
		vac := []string{}
		for _, w := range strings.Fields(hr.h.doc["reach"]) {
			if !hr.reached[w] {
				vac = append(vac, w)
			}
		}
		full := hr.stopped == "done" && len(inc) == 0 && len(hr.unknown) == 0
		if !full {
			complete = false
		}
		b := map[string]any{"harness": hr.h.name, "bound": hr.h.doc["bound"], "paths": hr.paths, "forks": hr.forks, "merged_branches": hr.merges,
			"assertions_discharged": hr.nassert, "implicit_checks_discharged": hr.nimplicit, "explored_completely": full, "cpu_s": hr.cpu.Seconds()}
		if len(inc) > 0 {
			b["incomplete_paths"] = inc
		}
		if len(hr.unknown) > 0 {
			b["undecided_queries"] = hr.unknown
		}
		if hr.stopped != "done" {
			b["stopped"] = hr.stopped
		}
		if len(vac) > 0 {
			b["not_reached"] = vac
		}
		b["assertion_sites_reached"] = sortedKeys(hr.reached)
		bounds = append(bounds, b)
		for i, s := range hr.samples {
			if i < 1 {
				samples = append(samples, map[string]any{"harness": hr.h.name, "inputs": s})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	var fns []string
	for f := range encodedAll {
		n := shortName(f)
		pos := f.Prog.Fset.Position(f.Pos())
		if strings.Contains(pos.Filename, "zz_verif_") || n == "init" || strings.HasPrefix(n, "init#") {
			continue
		}
		fns = append(fns, n)
	}
	sort.Strings(fns)
	fns = compactStrings(fns)
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"exhaustive":        complete,
		"explanation":       "bounded symbolic execution of the SSA of the functions listed, regenerated from the current tree; states = symbolic paths plus merged branch states, transitions = forked and merged branches; every assertion and runtime check is decided by an SMT query over all values within the bounds of each harness",
		"functions_encoded": fns, "harnesses": bounds, "paths": paths,
		"obligations_discharged": obl, "implicit_checks_discharged": impl,
		"solver":                map[string]any{"queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unk, "cached": st.Cached, "errors": st.Errors, "portfolio_queries": st.Fallbk, "integer_encoded": st.IntQ, "narrow_encoded": st.NarQ, "time_s": st.Time.Seconds()},
		"dropped_harness_files": dropped, "thorough_only_harnesses": skipped,
		"unconfirmed_counterexamples": unconfirmed, "validation_disagreements": disagreed,
	}
	assum := []string{"bounds per harness as listed under coverage.harnesses", "logging, formatting and clock calls have no effect on the result",
		"files are modelled as in-memory byte arrays; Go's memory model beyond the modelled schedules is not covered"}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assum,
		"wall_s": time.Since(t0).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0644)
	for _, u := range unconfirmed {
		fmt.Println("  unconfirmed:", u)
	}
	for _, u := range disagreed {
		fmt.Println("  validation disagreement:", u)
	}
	fmt.Printf("%s %s: harnesses=%d paths=%d assertions=%d implicit=%d queries=%d solver=%.1fs validated=%d complete=%v wall=%.1fs violations=%d\n", prop, tier, len(hrs), paths, obl, impl, st.Queries, st.Time.Seconds(), validated, complete, time.Since(t0).Seconds(), nviol)
	return exit
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	json.Unmarshal(b, &rf)
	root := envOr("VERIF_ROOT", "/verif")
	L, err := Load(envOr("VERIF_REPO", "/repo"), filepath.Join(root, "harness"), topicsFor(filepath.Join(root, "harness"), "", func(n string) bool { return n == rf.Harness }))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	work, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(work)
	res, out, err := L.replayNative(rf.Harness, rf.Inputs, work)
	fmt.Println(out)
	fmt.Println("result:", res, err)
	if strings.HasPrefix(res, "assert") || strings.HasPrefix(res, "panic") || strings.HasPrefix(res, "crash") {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
		return 1
	}
	return 0
}

// replayBatch runs several cases natively; result i is "" when it did not run.
func (L *Loader) replayBatch(cases []replayCase, work string) ([]string, error) {
	if err := L.buildReplay(work); err != nil {
		return nil, err
	}
	res := make([]string, len(cases))
	start := 0
	for tries := 0; start < len(cases) && tries < 5; tries++ {
		in := filepath.Join(work, "batch.json")
		b, _ := json.Marshal(cases[start:])
		os.WriteFile(in, b, 0644)
		td, _ := os.MkdirTemp(work, "run")
		cmd := exec.Command("timeout", "60", filepath.Join(work, "replay.test"), "-test.run", "^TestZZVerifReplay$", "-test.v", "-test.timeout", "50s")
		cmd.Dir = td
		cmd.Env = append(os.Environ(), "VERIF_BATCH="+in, "VERIF_TMP="+td, "GOMEMLIMIT=4GiB")
		out, _ := cmd.CombinedOutput()
		os.RemoveAll(td)
		last := -1
		for _, l := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(l, "VERIF-CASE ") {
				last, _ = strconv.Atoi(strings.TrimPrefix(l, "VERIF-CASE "))
			}
			if strings.HasPrefix(l, "VERIF-RESULT ") && last >= 0 && start+last < len(res) {
				res[start+last] = strings.TrimPrefix(l, "VERIF-RESULT ")
			}
		}
		if last < 0 {
			break
		}
		if start+last >= len(cases)-1 && res[len(cases)-1] != "" {
			break
		}
		if res[start+last] == "" {
			res[start+last] = "stop crashed or timed out"
		}
		start += last + 1
	}
	return res, nil
}

func compactStrings(a []string) []string {
	var r []string
	for _, x := range a {
		if len(r) == 0 || r[len(r)-1] != x {
			r = append(r, x)
		}
	}
	return r
}

func retries(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}
