package main

// The support table lists the operand combinations (operation, kinds, shape
// classes) that the library accepts. It was measured on the repaired tree with
// -mode support and is committed as support.json. A listed combination must keep
// working; an unlisted one may be refused but must not give a wrong value.

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
)

//go:embed support.json
var supportJSON []byte

var supportSet map[string]bool

func supported(key string) bool {
	if measuring {
		return false
	}
	if supportSet == nil {
		supportSet = map[string]bool{}
		var l []string
		if err := json.Unmarshal(supportJSON, &l); err != nil {
			die("support.json: %v", err)
		}
		for _, k := range l {
			supportSet[k] = true
		}
	}
	return supportSet[key]
}

type supStat struct {
	ok, no int
	why    map[string]int
}

var measuring bool
var supMu sync.Mutex
var supStats = map[string]*supStat{}

func noteSupport(key string, c *caught) {
	if !measuring {
		return
	}
	supMu.Lock()
	defer supMu.Unlock()
	s := supStats[key]
	if s == nil {
		s = &supStat{why: map[string]int{}}
		supStats[key] = s
	}
	if c == nil {
		s.ok++
	} else {
		s.no++
		s.why[c.String()]++
	}
}

// supportMode measures the table: runs the generators of all registered families
// that consult it and lists always-accepted combinations.
func supportMode() {
	measuring = true
	fails := map[string]int{}
	firstFail := map[string]string{}
	for _, id := range propIDs() {
		p := properties[id]
		for fi := range p.Families {
			f := &p.Families[fi]
			if *flagProp != "" && *flagProp != id {
				continue
			}
			n := int(float64(f.Quick) * *flagScale)
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := g; i < n; i += 8 {
						o := runCase(f, newCase(uint64(*flagSeed), p.ID, f.Name, i))
						if o.fail != nil {
							supMu.Lock()
							k := id + "/" + f.Name + " " + o.fail.Key
							fails[k]++
							if fails[k] == 1 {
								firstFail[k] = o.fail.Msg
							}
							supMu.Unlock()
						}
					}
				}(g)
			}
			wg.Wait()
		}
	}
	var keys []string
	for k := range supStats {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var good []string
	for _, k := range keys {
		s := supStats[k]
		switch {
		case s.no == 0:
			good = append(good, k)
			if *flagAll {
				fmt.Println("yes  ", k, s.ok)
			}
		case s.ok == 0:
			if *flagAll {
				fmt.Println("no   ", k, s.no, oneWhy(s))
			}
			for w := range s.why {
				if len(w) > 13 && w[:13] == "runtime error" {
					fmt.Println("CRASH", k, s.no, w)
				}
			}
		default:
			fmt.Println("MIXED", k, "ok", s.ok, "refused", s.no)
			for w, n := range s.why {
				fmt.Println("       ", n, trunc(w, 250))
			}
		}
	}
	var fk []string
	for k := range fails {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	for _, k := range fk {
		fmt.Println("FAIL ", k, fails[k], "e.g.", firstFail[k])
	}
	fmt.Println(len(good), "supported combinations of", len(keys))
	if *flagFile != "" {
		b, _ := json.MarshalIndent(good, "", " ")
		if err := os.WriteFile(filepath.Clean(*flagFile), append(b, '\n'), 0o644); err != nil {
			die("%v", err)
		}
	}
}

func oneWhy(s *supStat) string {
	for w := range s.why {
		return trunc(w, 200)
	}
	return ""
}
