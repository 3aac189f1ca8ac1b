// Command hv decides one property of gocraft/health from the source in /repo and writes its evidence file.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/analyzer/load"
	"verif/analyzer/props"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "verification directory")
	id := flag.String("property", "", "property id, comma separated list or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	noev := flag.Bool("noevidence", false, "do not write evidence")
	flag.Parse()
	modcache := os.Getenv("GOMODCACHE")
	if modcache == "" {
		modcache = "/root/go/pkg/mod"
	}
	t0 := time.Now()
	debug.SetGCPercent(400)
	p, err := load.Load(*repo, filepath.Join(*verif, "analyzer", "stubs"), modcache)
	var ids []string
	if *id == "all" {
		for k := range props.Checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*id, ",")
	}
	code := 0
	for _, pid := range ids {
		chk := props.Checks[pid]
		if chk == nil {
			fmt.Fprintln(os.Stderr, "unknown property", pid)
			os.Exit(2)
		}
		t1 := time.Now()
		if len(ids) == 1 {
			t1 = t0
		}
		c := props.NewCtx(pid, p)
		c.Thorough = *tier == "thorough"
		if err != nil {
			c.Viols = append(c.Viols, props.Violation{Where: "?", Func: "?", Msg: "the source cannot be loaded: " + err.Error()})
		} else {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if os.Getenv("HV_DEBUG") != "" {
							panic(r)
						}
						c.Viols = append(c.Viols, props.Violation{Where: "?", Func: "?", Msg: fmt.Sprintf("cannot be decided: analysis stopped: %v", r)})
					}
				}()
				chk(c)
			}()
			if c.Obl == 0 && len(c.Viols) == 0 {
				c.Viols = append(c.Viols, props.Violation{Where: "?", Func: "?", Msg: "nothing was analysed"})
			}
		}
		known := readKnown(filepath.Join(*verif, "known-findings.txt"), pid)
		var fresh []props.Violation
		for _, v := range c.Viols {
			if k := matchKnown(known, v); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", pid, k)
				continue
			}
			fresh = append(fresh, v)
		}
		if !*noev {
			writeEvidence(*verif, pid, *tier, c, fresh, time.Since(t1))
		}
		if len(fresh) > 0 {
			code = 1
			rep := filepath.Join(*verif, "evidence", pid+".json")
			for i, v := range fresh {
				if i == 12 {
					fmt.Printf("  ... %d more\n", len(fresh)-12)
					break
				}
				fmt.Printf("  %s %s: %s\n", v.Where, v.Func, v.Msg)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", pid, rep)
		} else {
			fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d (%.2fs)\n", pid, c.Obl, len(c.Funcs), c.Paths, time.Since(t1).Seconds())
		}
	}
	os.Exit(code)
}

type knownF struct{ key, text string }

func readKnown(file, pid string) []knownF {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []knownF
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> key=<function>|<substring of the message> :: text
		if !strings.HasPrefix(l, "known: property="+pid+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+pid+" ")
		k, t, ok := strings.Cut(l, " :: ")
		if ok {
			r = append(r, knownF{strings.TrimPrefix(k, "key="), t})
		}
	}
	return r
}

func matchKnown(ks []knownF, v props.Violation) string {
	for _, k := range ks {
		fn, sub, _ := strings.Cut(k.key, "|")
		if v.Func == fn && sub != "" && strings.Contains(v.Msg, sub) {
			return k.text
		}
	}
	return ""
}

func writeEvidence(verif, pid, tier string, c *props.Ctx, fresh []props.Violation, d time.Duration) {
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	ev := props.Evidence(pid, tier, c, fresh, d)
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.WriteFile(filepath.Join(verif, "evidence", pid+".json"), append(b, '\n'), 0o644)
}
