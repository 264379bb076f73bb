package vh

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

func TestVH(t *testing.T) {
	mode := os.Getenv("VH_MODE")
	if mode == "" {
		t.Skip("run through cmd/vrun")
	}
	outF = os.NewFile(3, "out")
	deadline, _ = strconv.ParseInt(os.Getenv("VH_DEADLINE"), 10, 64)
	for _, k := range strings.Split(os.Getenv("VH_KNOWN"), "\n") {
		if k != "" {
			knownSet[k] = true
		}
	}
	f := checks[prop]
	if f == nil {
		fmt.Println("no such property:", prop)
		os.Exit(2)
	}
	c := f()
	seen := map[string]bool{}
	for i := range c.Units {
		if seen[c.Units[i].Name] {
			panic("harness: two units are named " + c.Units[i].Name)
		}
		seen[c.Units[i].Name] = true
		if c.Units[i].Bin == "" {
			c.Units[i].Bin = "sched"
		}
	}
	limit := 25 * time.Second
	native := os.Getenv("VH_BIN") == "native"
	if native {
		limit = 50 * time.Second
	}
	switch mode {
	case "list":
		type ui struct{ Name, Bin string }
		var us []ui
		for _, u := range c.Units {
			us = append(us, ui{u.Name, u.Bin})
		}
		emit(map[string]interface{}{"Units": us, "Note": c.Notes})
	case "worker":
		watchdog(limit)
		if p := os.Getenv("VH_PROG"); p != "" {
			progF, _ = os.Create(p)
		}
		sc := bufio.NewScanner(os.Stdin)
		sc.Buffer(nil, 1<<22)
		for sc.Scan() {
			var j struct {
				Unit            int
				Resume, ResumeN []int
			}
			if json.Unmarshal(sc.Bytes(), &j) != nil {
				os.Exit(2)
			}
			if progF != nil {
				progF.Close()
				progF, _ = os.Create(os.Getenv("VH_PROG"))
			}
			un := c.Units[j.Unit]
			u := &U{t: t, Unit: j.Unit, Name: un.Name, states: map[uint64]struct{}{}, outs: map[string]struct{}{}, resume: j.Resume, resumeN: j.ResumeN}
			st := realNow()
			if native {
				atomic.StoreInt32(&busy, 1)
			}
			digest = 14695981039346656037
			un.Run(u)
			u.Digest = fmt.Sprintf("%016x", digest)
			atomic.StoreInt32(&busy, 0)
			u.WallMS = int(realNow() - st)
			emit(u)
		}
	case "replay":
		watchdog(limit)
		var v Violation
		if err := json.Unmarshal([]byte(os.Getenv("VH_ARG")), &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for i, un := range c.Units {
			if un.Name == v.Unit {
				u := &U{t: t, Unit: i, Name: un.Name, states: map[uint64]struct{}{}, outs: map[string]struct{}{}, replay: &v}
				if native {
					atomic.StoreInt32(&busy, 1)
				}
				un.Run(u)
				atomic.StoreInt32(&busy, 0)
				var w Violation
				if len(u.Violations) > 0 {
					w = u.Violations[0]
				}
				emit(map[string]interface{}{"Reproduced": u.replayed, "V": w})
				return
			}
		}
		fmt.Println("unit not found:", v.Unit)
		os.Exit(2)
	}
}
