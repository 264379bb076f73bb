package vh

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"testing/synctest"

	"vharness/vrt"
)

// bubble runs f in a synctest bubble. With the race detector on, package testing
// ends the calling goroutine when it saw a report, also an irrelevant one.
func bubble(t *testing.T, f func(t *testing.T)) {
	if !vrt.RaceOn {
		synctest.Test(t, f)
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		synctest.Test(t, f)
	}()
	<-done
}

var (
	raceLog string
	raceOff int64
	raceSub string
)

// newRaces returns the first relevant report the race detector wrote since the
// last call: one in which the code under test makes at least one of the two
// accesses. The scheduler's own hand-overs are hidden from the detector, so
// the harness's own data show up as well; those reports mean nothing.
func newRaces() string {
	if !vrt.RaceOn {
		return ""
	}
	if raceLog == "" {
		raceLog = fmt.Sprintf("%s.%d", os.Getenv("VH_RACELOG"), os.Getpid())
	}
	fi, err := os.Stat(raceLog)
	if err != nil || fi.Size() <= raceOff {
		return ""
	}
	b, err := os.ReadFile(raceLog)
	if err != nil {
		return ""
	}
	raceSub += string(b[raceOff:])
	raceOff = int64(len(b))
	res := ""
	for {
		i := strings.Index(raceSub, "WARNING: DATA RACE")
		if i < 0 {
			return res
		}
		j := strings.Index(raceSub[i:], "==================")
		if j < 0 {
			raceSub = raceSub[i:]
			return res
		}
		rep := raceSub[i : i+j]
		raceSub = raceSub[i+j:]
		if relevantRace(rep) && res == "" {
			if len(rep) > 3500 {
				rep = rep[:3500]
			}
			res = rep
		}
	}
}

// relevantRace tells whether the code under test makes one of the accesses, and
// neither is made by a line of the harness itself (a library called by the
// harness counts: replies are encoded there).
func relevantRace(rep string) bool {
	relevant := false
	for _, sec := range strings.Split(rep, "\n\n") {
		access, first := false, true
		for _, l := range strings.Split(sec, "\n") {
			t := strings.TrimSpace(l)
			low := strings.ToLower(t)
			if strings.Contains(low, " by goroutine ") || strings.Contains(low, " by main goroutine") {
				access = strings.Contains(low, "read at") || strings.Contains(low, "write at")
				continue
			}
			if strings.HasPrefix(l, "Goroutine ") {
				break
			}
			if !access || !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "      ") {
				continue
			}
			if strings.HasPrefix(t, "vharness/") {
				if first {
					return false
				}
				break
			}
			if strings.HasPrefix(t, "trypo/") || strings.Contains(t, "go-narb") {
				relevant = true
				break
			}
			first = false
		}
	}
	return relevant
}
