package main

import (
	"fmt"
	"sort"
	"strings"
)

// explore lists every distinct way a property fails, with a count and an example
// (a development aid; checks stop at the first failure per family).
func explore() {
	p := properties[*flagProp]
	type ex struct {
		n   int
		msg string
	}
	found := map[string]*ex{}
	for fi := range p.Families {
		f := &p.Families[fi]
		if *flagFam != "" && f.Name != *flagFam {
			continue
		}
		for i := 0; i < count(f); i++ {
			o := runCase(f, newCase(uint64(*flagSeed), p.ID, f.Name, i))
			if o.fail == nil {
				continue
			}
			k := f.Name + "/" + o.fail.Key
			e := found[k]
			if e == nil {
				e = &ex{}
				found[k] = e
			}
			e.n++
			if e.msg == "" || len(o.fail.Msg) < len(e.msg) {
				e.msg = o.fail.Msg
			}
		}
	}
	var ks []string
	for k := range found {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%6d %s\n         %s\n", found[k].n, k, strings.ReplaceAll(trunc(found[k].msg, 600), "\n", "\n         "))
	}
	fmt.Println(len(ks), "distinct failures")
}
