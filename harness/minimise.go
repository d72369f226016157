package main

import (
	"encoding/json"
	"fmt"
	"time"

	"verif/simrt"
)

// minimise shrinks the workload and the schedule of a violation, as long as a
// violation of the same class of the same property remains.
func minimise(rf *ReplayFile, budget float64) (*Plan, string) {
	start := time.Now()
	left := func() bool { return time.Since(start).Seconds() < budget }
	cur := rf.Plan.clone()
	size0, devs0 := planSize(cur), len(cur.Devs)
	tries := 0
	attempt := func(p *Plan) (res *Plan) {
		tries++
		defer func() {
			if recover() != nil {
				res = nil // not a workload any more
			}
		}()
		o := evaluate(p, false)
		if matchClass(o, rf.Property, rf.Violation.Class) == nil {
			return nil
		}
		q := p.clone()
		if !p.Replay {
			q.Replay, q.Devs = true, o.Recorded
		}
		return q
	}
	if q := attempt(cur); q == nil {
		return cur, "not minimised: the violation did not show again in the minimising process"
	} else {
		cur = q
	}
	for progress := true; progress && left(); {
		progress = false
		// workload
		for again := true; again && left(); {
			again = false
			for _, cand := range shrinks(cur) {
				if !left() {
					break
				}
				q := attempt(cand)
				for k := uint64(0); q == nil && k < 4 && left(); k++ {
					c2 := cand.clone()
					c2.Replay, c2.Devs = false, nil
					c2.Seed = simrt.Mix(cand.Seed, k)
					c2.Policy = simrt.Policy{Kind: simrt.RandomWalk, Mean: []int{1, 3, 10, 1}[k]}
					if cand.Policy.Tick > 0 && k%2 == 0 {
						c2.Policy.Tick = cand.Policy.Tick
					}
					q = attempt(c2)
				}
				if q != nil && (planSize(q) < planSize(cur) || planSize(q) == planSize(cur) && len(q.Devs) <= len(cur.Devs)) {
					cur = q
					again, progress = true, true
					break
				}
			}
		}
		// schedule: drop ever smaller chunks of deviations
		for n := len(cur.Devs); n >= 1 && left(); {
			removed := false
			for i := 0; i < len(cur.Devs) && left(); {
				j := i + n
				if j > len(cur.Devs) {
					j = len(cur.Devs)
				}
				c2 := cur.clone()
				c2.Devs = append(append([]simrt.Deviation(nil), cur.Devs[:i]...), cur.Devs[j:]...)
				if q := attempt(c2); q != nil {
					cur = q
					removed, progress = true, true
				} else {
					i = j
				}
			}
			if n == 1 && !removed {
				break
			}
			if n > 1 {
				n = (n + 1) / 2
			}
		}
		// clock advances within deviations
		for i := 0; i < len(cur.Devs) && left(); i++ {
			if cur.Devs[i].Ticks > 0 {
				c2 := cur.clone()
				c2.Devs[i].Ticks--
				if q := attempt(c2); q != nil {
					cur = q
					progress = true
				}
			}
		}
	}
	return cur, fmt.Sprintf("workload size %d -> %d, schedule deviations %d -> %d, %d executions", size0, planSize(cur), devs0, len(cur.Devs), tries)
}

// planSize measures a workload.
func planSize(p *Plan) int {
	n := 0
	if p.Col == nil {
		b, _ := json.Marshal([]any{p.E2E, p.Enc, p.Codec, p.Buf, p.X})
		return len(b)
	}
	if c := p.Col; c != nil {
		n += len(c.Tail) + len(c.Parts)/100
		for _, t := range c.Tasks {
			n += 1 + 10*len(t)
		}
		for _, t := range c.HActs {
			n += 1 + 10*len(t)
		}
		for _, t := range c.Tasks {
			for _, o := range t {
				if o.D != 0 {
					n++
				}
				if o.Mut != "" {
					n++
				}
			}
		}
	}
	return n
}

// shrinks proposes smaller workloads.
func shrinks(p *Plan) []*Plan {
	var out []*Plan
	try := func(f func(q *Plan) bool) {
		q := p.clone()
		if f(q) {
			out = append(out, q)
		}
	}
	if p.Col != nil {
		for i := range p.Col.Tasks {
			i := i
			try(func(q *Plan) bool {
				if len(q.Col.Tasks) < 2 {
					return false
				}
				q.Col.Tasks = append(q.Col.Tasks[:i], q.Col.Tasks[i+1:]...)
				return true
			})
		}
		if len(p.Col.Tail) > 0 {
			try(func(q *Plan) bool { q.Col.Tail = nil; return true })
		}
		for i := range p.Col.HActs {
			i := i
			try(func(q *Plan) bool {
				if len(q.Col.HActs[i]) == 0 {
					return false
				}
				q.Col.HActs[i] = nil
				return true
			})
		}
		for i := range p.Col.Tasks {
			i := i
			cuts(len(p.Col.Tasks[i]), func(a, b int) {
				try(func(q *Plan) bool {
					q.Col.Tasks[i] = append(q.Col.Tasks[i][:a], q.Col.Tasks[i][b:]...)
					return true
				})
			})
		}
		for i := range p.Col.Tasks {
			for j := range p.Col.Tasks[i] {
				i, j := i, j
				try(func(q *Plan) bool {
					o := &q.Col.Tasks[i][j]
					if o.Kind == "sleep" || o.D == 0 && o.Mut == "" {
						return false
					}
					o.D, o.Mut = 0, ""
					return true
				})
			}
		}
		for i := range p.Col.Tail {
			i := i
			try(func(q *Plan) bool {
				q.Col.Tail = append(q.Col.Tail[:i], q.Col.Tail[i+1:]...)
				return true
			})
		}
	}
	if e := p.E2E; e != nil {
		cuts(len(e.Msgs), func(a, b int) {
			try(func(q *Plan) bool { q.E2E.Msgs = append(q.E2E.Msgs[:a], q.E2E.Msgs[b:]...); return true })
		})
		cuts(len(e.Hostile), func(a, b int) {
			try(func(q *Plan) bool { q.E2E.Hostile = append(q.E2E.Hostile[:a], q.E2E.Hostile[b:]...); return true })
		})
		try(func(q *Plan) bool { q.E2E.Drop = 0; return e.Drop != 0 })
		try(func(q *Plan) bool { q.E2E.Dup = 0; return e.Dup != 0 })
		try(func(q *Plan) bool { q.E2E.Reuse = false; return e.Reuse })
		try(func(q *Plan) bool { q.E2E.Corrupt = 0; return e.Corrupt != 0 })
		try(func(q *Plan) bool { q.E2E.MaxDelay = 0; return e.MaxDelay != 0 })
		cuts(len(e.Restarts), func(a, b int) {
			try(func(q *Plan) bool { q.E2E.Restarts = append(q.E2E.Restarts[:a], q.E2E.Restarts[b:]...); return true })
		})
		for i := range e.Msgs {
			i := i
			try(func(q *Plan) bool { q.E2E.Msgs[i].Resends = nil; return len(e.Msgs[i].Resends) > 0 })
			for _, t := range shorter(e.Msgs[i].Text) {
				t := t
				try(func(q *Plan) bool { q.E2E.Msgs[i].Text = t; return true })
			}
			try(func(q *Plan) bool { q.E2E.Msgs[i].Extra = nil; return len(e.Msgs[i].Extra) > 0 })
			for _, n := range halves(len(e.Msgs[i].Data)) {
				n := n
				try(func(q *Plan) bool { q.E2E.Msgs[i].Data = q.E2E.Msgs[i].Data[:n]; return true })
			}
		}
		for i := range e.Devices {
			i := i
			try(func(q *Plan) bool { q.E2E.Devices[i].UDH = nil; return len(e.Devices[i].UDH) > 0 })
			try(func(q *Plan) bool { q.E2E.Devices[i].UDH0 = false; return e.Devices[i].UDH0 })
			try(func(q *Plan) bool { q.E2E.Devices[i].Charset = nil; return len(e.Devices[i].Charset) > 0 })
		}
	}
	if e := p.Enc; e != nil {
		cuts(len(e.Tasks), func(a, b int) {
			try(func(q *Plan) bool {
				q.Enc.Tasks = append(q.Enc.Tasks[:a], q.Enc.Tasks[b:]...)
				return len(q.Enc.Tasks) > 0
			})
		})
		for i := range e.Tasks {
			i := i
			cuts(len(e.Tasks[i]), func(a, b int) {
				try(func(q *Plan) bool {
					q.Enc.Tasks[i] = append(q.Enc.Tasks[i][:a], q.Enc.Tasks[i][b:]...)
					return true
				})
			})
		}
		for i := range e.Lists {
			i := i
			cuts(len(e.Lists[i].Opts), func(a, b int) {
				try(func(q *Plan) bool {
					q.Enc.Lists[i].Opts = append(q.Enc.Lists[i].Opts[:a], q.Enc.Lists[i].Opts[b:]...)
					return true
				})
			})
		}
		for i := range e.Encs {
			i := i
			cuts(len(e.Encs[i].Opts), func(a, b int) {
				try(func(q *Plan) bool {
					q.Enc.Encs[i].Opts = append(q.Enc.Encs[i].Opts[:a], q.Enc.Encs[i].Opts[b:]...)
					return true
				})
			})
		}
		for i := range e.Msgs {
			i := i
			for _, t := range shorter(e.Msgs[i].Text) {
				t := t
				try(func(q *Plan) bool { q.Enc.Msgs[i].Text = t; return true })
			}
			for _, n := range halves(len(e.Msgs[i].Data)) {
				n := n
				try(func(q *Plan) bool { q.Enc.Msgs[i].Data = q.Enc.Msgs[i].Data[:n]; return true })
			}
		}
	}
	if e := p.Codec; e != nil {
		cuts(len(e.Tasks), func(a, b int) {
			try(func(q *Plan) bool {
				q.Codec.Tasks = append(q.Codec.Tasks[:a], q.Codec.Tasks[b:]...)
				return len(q.Codec.Tasks) > 0
			})
		})
		for i := range e.Tasks {
			i := i
			cuts(len(e.Tasks[i]), func(a, b int) {
				try(func(q *Plan) bool {
					q.Codec.Tasks[i] = append(q.Codec.Tasks[i][:a], q.Codec.Tasks[i][b:]...)
					return true
				})
			})
			for j := range e.Tasks[i] {
				j := j
				for _, t := range shorter(e.Tasks[i][j].Text) {
					t := t
					try(func(q *Plan) bool { q.Codec.Tasks[i][j].Text = t; return true })
				}
				for _, n := range halves(len(e.Tasks[i][j].Data)) {
					n := n
					try(func(q *Plan) bool { q.Codec.Tasks[i][j].Data = q.Codec.Tasks[i][j].Data[:n]; return true })
				}
			}
		}
	}
	if e := p.Buf; e != nil {
		cuts(len(e.Users), func(a, b int) {
			try(func(q *Plan) bool { q.Buf.Users = append(q.Buf.Users[:a], q.Buf.Users[b:]...); return true })
		})
		for i := range e.Users {
			i := i
			cuts(len(e.Users[i]), func(a, b int) {
				try(func(q *Plan) bool {
					q.Buf.Users[i] = append(q.Buf.Users[i][:a], q.Buf.Users[i][b:]...)
					return true
				})
			})
		}
		for i := range e.Recvs {
			i := i
			cuts(len(e.Recvs[i].Frames), func(a, b int) {
				try(func(q *Plan) bool {
					q.Buf.Recvs[i].Frames = append(q.Buf.Recvs[i].Frames[:a], q.Buf.Recvs[i].Frames[b:]...)
					return true
				})
			})
		}
	}
	if e := p.X; e != nil {
		cuts(len(e.Ops), func(a, b int) {
			try(func(q *Plan) bool { q.X.Ops = append(q.X.Ops[:a], q.X.Ops[b:]...); return true })
		})
		try(func(q *Plan) bool { q.X.Drop = 0; return e.Drop != 0 })
		try(func(q *Plan) bool { q.X.Dup = 0; return e.Dup != 0 })
		try(func(q *Plan) bool { q.X.Corrupt = 0; return e.Corrupt != 0 })
		try(func(q *Plan) bool { q.X.MaxDelay = 0; return e.MaxDelay != 0 })
		try(func(q *Plan) bool { q.X.Think = 0; return e.Think != 0 })
		try(func(q *Plan) bool { q.X.Replies = false; return e.Replies })
		for i := range e.Devs {
			i := i
			try(func(q *Plan) bool { q.X.Devs[i].Reuse = false; return e.Devs[i].Reuse })
		}
		for i := range e.SCs {
			i := i
			try(func(q *Plan) bool { q.X.SCs[i].Reuse = false; return e.SCs[i].Reuse })
			try(func(q *Plan) bool { q.X.SCs[i].Addr = ""; return e.SCs[i].Addr != "" })
		}
		for i := range e.Ops {
			i := i
			o := e.Ops[i]
			try(func(q *Plan) bool { q.X.Ops[i].Delay = 0; return o.Delay != 0 })
			try(func(q *Plan) bool { q.X.Ops[i].T.VPF = 0; q.X.Ops[i].T.VP = [7]int{}; return o.T.VPF != 0 })
			try(func(q *Plan) bool { q.X.Ops[i].T.UDH = nil; return len(o.T.UDH) > 0 })
			try(func(q *Plan) bool { q.X.Ops[i].T.Hdr0 = false; return o.T.Hdr0 })
			try(func(q *Plan) bool { q.X.Ops[i].T.PID = 0; return o.T.PID != 0 })
			try(func(q *Plan) bool { q.X.Ops[i].T.FO = 0; return o.T.FO != 0 })
			for _, n := range halves(len(o.T.UD)) {
				n := n
				if alphabetOf(o.T.DCS) == 2 && n%2 != 0 || n == 0 && len(o.T.UDH) > 0 {
					continue
				}
				try(func(q *Plan) bool { q.X.Ops[i].T.UD = q.X.Ops[i].T.UD[:n]; return true })
			}
			if len(o.USSD) > 8 {
				try(func(q *Plan) bool { q.X.Ops[i].USSD = q.X.Ops[i].USSD[8:]; return true })
			}
			for _, t := range shorter(o.Text) {
				t := t
				try(func(q *Plan) bool { q.X.Ops[i].Text = t; return t != "" })
			}
		}
	}
	return out
}

// cuts calls f with pieces of a list of n to leave out, the larger first.
func cuts(n int, f func(a, b int)) {
	for k := n / 2; k > 1; k /= 2 {
		for a := 0; a < n; a += k {
			f(a, min(a+k, n))
		}
	}
	for a := 0; a < n; a++ {
		f(a, a+1)
	}
}

// halves are smaller lengths to try.
func halves(n int) []int {
	switch {
	case n == 0:
		return nil
	case n < 3:
		return []int{0, n - 1}
	}
	return []int{0, n / 2, n - n/4, n - 1}
}

// shorter are beginnings of a text.
func shorter(t string) []string {
	c := []rune(t)
	var out []string
	for _, n := range halves(len(c)) {
		out = append(out, string(c[:n]))
	}
	return out
}
