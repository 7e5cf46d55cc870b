// Command vsa decides properties of rankdb from its source.
//
//	vsa -property C01 -repo /repo -verif /verif
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/analyzer/checks"
	"verif/analyzer/load"
)

type finding struct {
	Rule  string   `json:"rule"`
	Key   string   `json:"key"`
	Pos   string   `json:"pos"`
	Msg   string   `json:"message"`
	Trace []string `json:"path,omitempty"`
	Known string   `json:"known,omitempty"`
}

// known reads "finding: property=ID key=KEY | text" lines.
func known(path, prop string) (map[string]string, error) {
	out := map[string]string{}
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		pre := "finding: property=" + prop + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		kv := strings.SplitN(l[len(pre):], " :: ", 2)
		what := ""
		if len(kv) == 2 {
			what = strings.TrimSpace(kv[1])
		}
		out[strings.TrimSpace(kv[0])] = what
	}
	return out, sc.Err()
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	props := flag.String("property", "", "property ids, comma separated, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	debug := flag.String("debug", "", "debug print")
	flag.Parse()
	if t := os.Getenv("VERIF_TIER"); t != "" {
		*tier = t
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	p, err := load.Load(*repo)
	if err != nil {
		fmt.Println("cannot analyse:", err)
		os.Exit(3)
	}
	c := checks.NewCtx(p, *tier)
	if *debug == "locks" {
		checks.DebugLocks(c)
		return
	}
	ids := strings.Split(*props, ",")
	if *props == "all" {
		ids = checks.IDs()
	}
	exit := 0
	for _, id := range ids {
		ck, ok := checks.Get(id)
		if !ok {
			fmt.Println("no such check:", id)
			os.Exit(3)
		}
		kn, err := known(filepath.Join(*verif, "KNOWN_FINDINGS.txt"), id)
		if err != nil {
			fmt.Println("known findings:", err)
			os.Exit(3)
		}
		c.Known, c.Begin = map[string]bool{}, time.Now()
		for k := range kn {
			c.Known[k] = true
		}
		r := ck.Run(c)
		var fks []string
		for k := range r.Floors {
			fks = append(fks, k)
		}
		sort.Strings(fks)
		for _, k := range fks {
			if r.Counts[k] < r.Floors[k] {
				r.Add(checks.Finding{Rule: "coverage-floor", Key: "coverage-floor|" + k, Pos: "-",
					Msg: fmt.Sprintf("the rule found %d %s, fewer than the %d it needs to say anything: the code it is anchored in is gone or not recognised", r.Counts[k], k, r.Floors[k])})
			}
		}
		checks.SortFindings(r.Findings)
		var bad []finding
		var all []finding
		for _, f := range r.Findings {
			jf := finding{Rule: f.Rule, Key: f.Key, Pos: f.Pos, Msg: f.Msg, Trace: f.Trace}
			if what, ok := kn[f.Key]; ok {
				jf.Known = what
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, what, f.Pos)
			} else {
				bad = append(bad, jf)
			}
			all = append(all, jf)
		}
		cov := map[string]interface{}{
			"explanation": r.Explanation,
			"rules":       r.Rules,
			"files":       p.Files,
			"packages":    len(p.Pkgs),
			"functions":   len(p.Funcs),
			"counts":      r.Counts,
			"floors":      r.Floors,
			"samples":     r.Samples,
			"undecided":   r.Notes,
			"technique":   ck.Technique,
			"findings":    all,
		}
		ev := map[string]interface{}{
			"property": id, "tier": *tier, "seed": seed, "level": "other", "coverage": cov,
			"assumptions": r.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
		}
		if err := writeJSON(filepath.Join(*verif, "evidence", id+".json"), ev); err != nil {
			fmt.Println("evidence:", err)
			os.Exit(3)
		}
		if len(bad) > 0 {
			rp := filepath.Join(*verif, "evidence", "replay", id+".json")
			if err := writeJSON(rp, bad); err != nil {
				fmt.Println("replay:", err)
				os.Exit(3)
			}
			for _, f := range bad {
				fmt.Printf("%s: [%s] %s\n", f.Pos, f.Rule, f.Msg)
				for _, t := range f.Trace {
					fmt.Printf("    %s\n", t)
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			exit = 1
		} else {
			fmt.Printf("%s: held; %s\n", id, counts(r.Counts))
		}
	}
	os.Exit(exit)
}

func counts(m map[string]int) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
