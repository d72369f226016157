package main

import (
	"verif/simrt"
)

// EncCounter is a counter of message or concatenation references.
type EncCounter struct {
	Custom bool `json:"custom,omitempty"` // the harness's own, else sms.Counter
	Start  int  `json:"start"`
}

// EncOpt is one option value, shared by whoever uses it.
type EncOpt struct {
	Kind  string `json:"kind"`
	NLI   []int  `json:"nli,omitempty"`
	UDH   []IE   `json:"udh,omitempty"`
	Addr  string `json:"addr,omitempty"`
	TOA   byte   `json:"toa,omitempty"`
	FO    byte   `json:"fo,omitempty"`
	PID   byte   `json:"pid,omitempty"`
	DCS   byte   `json:"dcs,omitempty"`
	MR    byte   `json:"mr,omitempty"`
	VP    int    `json:"vp,omitempty"`
	Slack int    `json:"slack,omitempty"` // spare capacity of its slices
	MC    int    `json:"mc,omitempty"`
	CR    int    `json:"cr,omitempty"`
}

// EncSpec is a shared encoder.
type EncSpec struct {
	Opts  []int `json:"opts,omitempty"`
	Slack int   `json:"slack,omitempty"`
	Copy  int   `json:"copy"` // copy of an earlier encoder (index+1), 0: none
}

// EncSeg is a shared set of segmentation options.
type EncSeg struct {
	MC    int  `json:"mc"` // counter index, -1: none
	CR    int  `json:"cr"`
	Wide  bool `json:"wide,omitempty"`
	Slack int  `json:"slack,omitempty"`
}

// EncMsg is a message, in memory shared by those who encode it.
type EncMsg struct {
	Text  string `json:"text,omitempty"`
	Data  []byte `json:"data,omitempty"`
	Slack int    `json:"slack,omitempty"`
}

// EncOp is one operation of a task.
type EncOp struct {
	Kind string `json:"kind"` // encode pkg segment userdata read count watch yield sleep
	Enc  int    `json:"enc"`
	List int    `json:"list"` // option list (index+1), 0: none
	Seg  int    `json:"seg"`
	Msg  int    `json:"msg"`
}

// EncPlan is a workload of concurrent encodings.
type EncPlan struct {
	Counters []EncCounter `json:"counters"`
	Opts     []EncOpt     `json:"options"`
	Lists    []EncSpec    `json:"lists"` // option lists: what is passed to a call
	Encs     []EncSpec    `json:"encoders"`
	Segs     []EncSeg     `json:"segmentations"`
	Msgs     []EncMsg     `json:"messages"`
	Tasks    [][]EncOp    `json:"tasks"`
}

func genEnc(r *simrt.RNG, prop string) *Plan {
	pl := &EncPlan{}
	p := &Plan{Prop: prop, Scenario: "encoder", Enc: pl, MaxSteps: 20000000}
	p.Seed, p.MapSalt = r.Next(), r.Next()
	p.Policy = genPolicy(r, false)
	if p.Policy.Kind == simrt.RandomWalk {
		p.Policy.Mean = pick(r, 1, 3, 10, 30, 100, 300)
	}
	slack := func() int { return pick(r, 0, 1, 1, 2, 4) }
	for n := 1 + r.Intn(3); n > 0; n-- {
		st := pick(r, 0, 0, 1, 100, 250, 253, 255, 256, 511)
		if r.P(0.06) {
			st = 65530 + r.Intn(6)
		}
		pl.Counters = append(pl.Counters, EncCounter{Custom: r.P(0.25), Start: st})
	}
	no := 3 + r.Intn(6)
	// Some workloads are about character sets: options that accumulate.
	sets := r.P(0.3)
	for i := 0; i < no; i++ {
		o := EncOpt{Slack: slack()}
		n := r.Intn(100)
		if sets && i > 0 && r.P(0.85) {
			o.Kind = pick(r, "set", "set", "locking", "shift", "all")
			if o.Kind != "all" {
				o.NLI = []int{1 + r.Intn(13)}
			}
			pl.Opts = append(pl.Opts, o)
			continue
		}
		switch {
		case n < 18:
			o.Kind = "template"
			o.TOA, o.Addr = genAddr(r)
			o.FO = byte(r.Next()) & 0xa4
			o.PID, o.MR = byte(r.Next()), byte(r.Next())
			if r.P(0.4) {
				o.DCS = pick[byte](r, 0x04, 0x08, 0x10, 0x11, 0xf1, 0xf5, 0xc8, 0xe0, 0x40, 0x0c, 0x80)
			}
			if r.P(0.6) {
				o.UDH = genHeader(r)
			}
			o.VP = r.Intn(4)
		case n < 32:
			o.Kind = "udh"
			o.UDH = genHeader(r)
		case n < 38:
			o.Kind = pick(r, "da", "oa")
			o.TOA, o.Addr = genAddr(r)
		case n < 43:
			o.Kind = pick(r, "to", "from")
			o.Addr = pick(r, "", "+") + genDigits(r, 1+r.Intn(12))
		case n < 50:
			o.Kind = pick(r, "submit", "deliver")
		case n < 54:
			o.Kind = "8bit"
		case n < 58:
			o.Kind = "ucs2"
		case n < 65:
			o.Kind = "dcs"
			o.DCS = pick[byte](r, 0x00, 0x04, 0x08, 0x10, 0x11, 0xf1, 0xf5, 0xc8, 0xe0, 0x40, 0x0c, 0x80)
		case n < 72:
			o.Kind = "counters"
			o.MC, o.CR = r.Intn(len(pl.Counters)), r.Intn(len(pl.Counters))
		case n < 77:
			o.Kind = "all"
		default:
			o.Kind = pick(r, "set", "set", "locking", "shift")
			for k := 1 + r.Intn(3); k > 0; k-- {
				o.NLI = append(o.NLI, 1+r.Intn(13))
			}
		}
		pl.Opts = append(pl.Opts, o)
	}
	list := func(n int) EncSpec {
		s := EncSpec{Slack: slack()}
		for ; n > 0; n-- {
			s.Opts = append(s.Opts, r.Intn(len(pl.Opts)))
		}
		return s
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		if sets && r.P(0.7) {
			pl.Lists = append(pl.Lists, list(1))
			continue
		}
		pl.Lists = append(pl.Lists, list(1+r.Intn(3)))
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		if len(pl.Encs) > 0 && r.P(0.3) {
			pl.Encs = append(pl.Encs, EncSpec{Copy: 1 + r.Intn(len(pl.Encs))})
			continue
		}
		k := pick(r, 0, 1, 2, 3, 4)
		if sets {
			k = pick(r, 1, 3, 3, 5, 6, 7)
		}
		pl.Encs = append(pl.Encs, list(k))
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		pl.Segs = append(pl.Segs, EncSeg{MC: r.Intn(len(pl.Counters)+1) - 1, CR: r.Intn(len(pl.Counters)+1) - 1, Wide: r.P(0.4), Slack: slack()})
	}
	for n := 1 + r.Intn(5); n > 0; n-- {
		m := EncMsg{Slack: pick(r, 0, 1, 8, 64)}
		switch n := r.Intn(100); {
		case n < 8: // empty
		case n < 30:
			m.Text = pick(r, "hello", "short one", "@", "€uro", "ğış", "नमस्ते", "\U0001f600", "mixed Ω and ç")
		case n < 40:
			for k := r.Intn(450); k > 0; k-- {
				m.Data = append(m.Data, byte(r.Next()))
			}
		case sets && n < 80:
			// text that needs one of the sets at hand
			var k []int
			for _, o := range pl.Opts {
				k = append(k, o.NLI...)
			}
			if len(k) == 0 {
				k = []int{1}
			}
			i := k[r.Intn(len(k))]
			src := [][]rune{allRunes[0], allRunes[i], allRunes[100+i]}
			if r.P(0.5) {
				src = src[:2]
			}
			var t []rune
			for n := 1 + r.Intn(pick(r, 8, 200)); n > 0; n-- {
				s := src[r.Intn(len(src))]
				if c := s[r.Intn(len(s))]; c != 0x1b {
					t = append(t, c)
				}
			}
			m.Text = string(t)
		default:
			t := []rune(genText(r, 160, 153, 70, 67, r.P(0.05), false))
			if len(t) > 500 {
				t = t[:500]
			}
			m.Text = string(t)
		}
		pl.Msgs = append(pl.Msgs, m)
	}
	nt := 1 + r.Intn(4)
	if r.P(0.9) && nt == 1 {
		nt = 2
	}
	for i := 0; i < nt; i++ {
		var ops []EncOp
		for k := 1 + r.Intn(4); k > 0; k-- {
			o := EncOp{Enc: r.Intn(len(pl.Encs)), Msg: r.Intn(len(pl.Msgs)), Seg: r.Intn(len(pl.Segs))}
			if r.P(0.6) {
				o.List = 1 + r.Intn(len(pl.Lists))
			}
			switch n := r.Intn(100); {
			case n < 50:
				o.Kind = "encode"
			case n < 58:
				o.Kind = "pkg"
			case n < 75:
				o.Kind = "segment"
				o.Enc = r.Intn(len(pl.Opts))
			case n < 80:
				o.Kind = "userdata"
				o.List = 1 + r.Intn(len(pl.Lists))
			case n < 88:
				o.Kind = "read"
				o.Enc = r.Intn(len(pl.Counters) + len(pl.Encs))
			case n < 92:
				o.Kind = "count"
				o.Enc = r.Intn(len(pl.Counters))
			case n < 97:
				o.Kind = "watch"
			default:
				o.Kind = "yield"
			}
			ops = append(ops, o)
		}
		pl.Tasks = append(pl.Tasks, ops)
	}
	if prop == "C10" && r.P(0.15) { // long runs, so that references wrap
		for i := range pl.Tasks {
			for n := 10 + r.Intn(60); n > 0; n-- {
				pl.Tasks[i] = append(pl.Tasks[i], EncOp{Kind: pick(r, "encode", "encode", "segment", "read", "count"), Enc: 0, Msg: r.Intn(len(pl.Msgs)), Seg: 0})
			}
		}
		if p.Policy.Kind == simrt.RandomWalk {
			p.Policy.Mean = pick(r, 100, 1000)
		}
	}
	return p
}
