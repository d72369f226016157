// Command simtest runs the simulator on small programs whose faults are known.
package main

import (
	"fmt"
	"os"

	"github.com/warthog618/sms"
	_ "github.com/warthog618/sms/simsites"
	"verif/simrt"
)

func main() {
	bad := 0
	for i := range sms.Cases {
		c := &sms.Cases[i]
		got := map[string]int{}
		for seed := uint64(0); seed < 300; seed++ {
			pol := simrt.Policy{Kind: simrt.PolicyKind(seed % 5), Mean: 1 + int(seed/5%4)*3, Switch: 0.5, Depth: 3, Est: 60}
			if seed%3 == 0 {
				pol.Tick = 0.05
			}
			if pol.Kind == simrt.HotSites {
				for k := 0; k < 6; k++ {
					pol.Sites = append(pol.Sites, int32(1+simrt.Mix(seed, uint64(k))%uint64(len(simrt.Hits())-1)))
				}
			}
			s := simrt.New(seed, pol, nil, false, 3000000)
			races := simrt.RaceErrors()
			var tasks []func()
			var final func() string
			s.Spawn("setup", func() { tasks, final = c.Make() })
			s.Run()
			for k, f := range tasks {
				s.Spawn(fmt.Sprint("t", k), f)
			}
			s.Run()
			out := ""
			lib, _ := s.Unfinished()
			switch {
			case len(s.Panics) > 0:
				out = "panic"
			case s.Hang || len(lib) > 0:
				out = "hang"
			default:
				r := ""
				s.Spawn("final", func() { r = final() })
				s.Run()
				if r != "" {
					out = "wrong"
				}
				if l, _ := s.Unfinished(); len(l) > 0 {
					out = "hang"
				}
			}
			if out == "panic" && os.Getenv("V") != "" {
				fmt.Println(c.Name, s.Panics[0].Value)
			}
			dr := simrt.RaceErrors() - races
			s.Stop()
			if out != "" {
				got[out]++
			}
			if dr > 0 {
				got["race"]++
			}
		}
		ok := len(got) == 0
		if c.Bad != "" {
			ok = got[c.Bad] > 0
			if c.Bad == "race" && !simrt.RaceBuild {
				ok = true
			}
			for k := range got {
				ok = ok && (k == c.Bad || k == "race" || c.Name == "select-returns")
			}
		}
		if c.Name == "select-returns" {
			ok = got["race"] == 0 && got["panic"] == 0 // may wait for ever
		}
		if !ok {
			bad++
		}
		fmt.Println(map[bool]string{true: "ok  ", false: "BAD "}[ok], c.Name, c.Bad, got)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
