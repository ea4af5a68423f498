//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	realos "os"
	"regexp"
	"sort"
	"strings"
	"sync"
)

var digits = regexp.MustCompile(`[0-9]+|"[^"]*"|'[^']*'`)

// explore lists the outcomes of the cases of a property (a tool for the developer of the checks)
func explore(id string, n int, dir string) {
	p := props[id]
	self, _ := realos.Executable()
	ex := newExec(self, 8)
	var mu sync.Mutex
	count := map[string]int{}
	sample := map[string]string{}
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				sc := p.Gen(NewCaseRng(groupSeed, hash64(id), uint64(i)), i)
				sc.MaxSteps = stepBudget(sc)
				res, err := ex.Run(sc)
				if err != nil {
					fmt.Println(i, err)
					continue
				}
				mu.Lock()
				for a := range res.Ops {
					for b := range res.Ops[a] {
						o := outcomeOf(res, &res.Ops[a][b])
						st := ""
						if o.Class == "panic" || o.Class == "crash" {
							for _, l := range strings.Split(o.Stack+res.Stack, "\n") {
								if strings.Contains(l, "/repo/") && !strings.Contains(l, "verifsim") {
									st = strings.Fields(l)[0]
									break
								}
							}
						}
						k := o.Class + " | " + tailOf(digits.ReplaceAllString(o.Err+" "+o.Panic, "#"), 110) + " | " + st
						if o.Class == "ok" {
							k = "ok"
						}
						count[k]++
						if s, ok := sample[k]; !ok || len(sc.Tasks[a].Ops[b].Src) < len(s) {
							if o.Class != "ok" && len(sc.Tasks[a].Ops[b].Src) > 0 {
								sample[k] = string(sc.Tasks[a].Ops[b].Src)
							}
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	keys := []string{}
	for k := range count {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return count[keys[i]] > count[keys[j]] })
	for i, k := range keys {
		fmt.Println(count[k], k)
		if dir != "" {
			_ = realos.WriteFile(fmt.Sprintf("%s/s%d.adoc", dir, i), []byte(sample[k]), 0o644)
		}
	}
	_ = json.Marshal
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
