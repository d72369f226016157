package main

import (
	"fmt"

	"verif/simrt"
)

// IE is an information element of a generated header.
type IE struct {
	ID   byte   `json:"id"`
	Data []byte `json:"data"`
}

// ColPart is one TPDU a client may hand to the collector.
type ColPart struct {
	Type  int    `json:"type"` // tpdu.SmsType
	TOA   byte   `json:"toa"`
	Addr  string `json:"addr"`
	Multi bool   `json:"multi"` // has a concatenation element
	Wide  bool   `json:"wide,omitempty"`
	Ref   int    `json:"ref"`
	Count int    `json:"count"`
	Seq   int    `json:"seq"`
	Pre   []IE   `json:"pre,omitempty"`
	Post  []IE   `json:"post,omitempty"`
	Wild  []IE   `json:"wild,omitempty"` // contradictory header, own identity
	UD    []byte `json:"ud"`
	Decoy int    `json:"decoy,omitempty"` // what the unused fields hold
	FO    byte   `json:"fo,omitempty"`    // further flags of the first octet
	PID   byte   `json:"pid,omitempty"`
	DCS   byte   `json:"dcs,omitempty"`
}

// ident is what identifies the message a part belongs to.
func (p *ColPart) ident() string {
	return fmt.Sprintf("type %d, address %02x %q, reference %d, %d parts", p.Type, p.TOA, p.Addr, p.Ref, p.Count)
}

// category of a part, by the text of the properties.
const (
	catOK   = iota // well-formed part of a multi-part message
	catPass        // not one of several parts
	catSeq         // sequence number outside 1..count
	catType        // unsupported SMS type
	catWild        // contradictory concatenation elements
)

func (p *ColPart) cat() int {
	switch {
	case p.Wild != nil:
		return catWild
	case !p.Multi || p.Count < 2:
		return catPass
	case p.Type != 0 && p.Type != 3:
		return catType
	case p.Seq < 1 || p.Seq > p.Count:
		return catSeq
	}
	return catOK
}

// ColOp is one step of a client task or of the expiry handler.
type ColOp struct {
	Kind string `json:"kind"` // collect, pipes, close, sleep, yield, block
	Part int    `json:"part,omitempty"`
	D    int64  `json:"d,omitempty"`
	Mut  string `json:"mut,omitempty"` // pipes: clear, reverse or drop afterwards
}

// ColPlan is a collector workload.
type ColPlan struct {
	D       int64     `json:"timeout"`
	Handler bool      `json:"handler"`
	Opt     bool      `json:"option"` // whether the timeout option is used at all
	HActs   [][]ColOp `json:"handler_acts,omitempty"`
	Parts   []ColPart `json:"parts"`
	Tasks   [][]ColOp `json:"tasks"`
	Tail    []ColOp   `json:"tail,omitempty"` // after everything has come to rest
	NoMut   bool      `json:"no_mutation,omitempty"`
}

type colIdent struct {
	typ   int
	toa   byte
	addr  string
	ref   int
	wide  bool
	count int
}

func (a colIdent) clash(b colIdent) bool {
	a.wide, b.wide = false, false
	return a == b
}

func genDigits(r *simrt.RNG, n int) string {
	const ds = "0123456789*#abc"
	b := make([]byte, n)
	for i := range b {
		b[i] = ds[r.Intn(10)]
		if r.P(0.03) {
			b[i] = ds[r.Intn(15)]
		}
	}
	return string(b)
}

func genAlnum(r *simrt.RNG, n int) string {
	const cs = "ABCabcXYZxyz0189:%:-_. @"
	b := make([]byte, n)
	for i := range b {
		b[i] = cs[r.Intn(len(cs))]
	}
	return string(b)
}

func genIdent(r *simrt.RNG) colIdent {
	id := colIdent{typ: pick(r, 0, 0, 3), count: 2 + r.Intn(4)}
	switch n := r.Intn(10); {
	case n < 6:
		id.toa = pick[byte](r, 0x91, 0x91, 0x81, 0xa1, 0xc8, 0x80, 0xff)
		id.addr = genDigits(r, r.Intn(13))
	case n < 9:
		id.toa = 0xd0
		id.addr = genAlnum(r, 1+r.Intn(11))
	default:
		id.toa = byte(0x80 | r.Intn(128))
		id.addr = genDigits(r, 1+r.Intn(20))
	}
	if r.P(0.3) {
		id.wide = true
		id.ref = r.Intn(65536)
	} else {
		id.ref = pick(r, r.Intn(256), r.Intn(256), 0, 1, 255, r.Intn(20))
	}
	if r.P(0.1) {
		id.count = pick(r, 2, 12, 21, 22, 16)
	}
	return id
}

// neighbour differs from the identity in one respect that is easily lost.
func neighbour(r *simrt.RNG, b colIdent) colIdent {
	n := b
	switch r.Intn(13) {
	case 0:
		n.typ = 3 - b.typ
	case 1:
		n.toa = b.toa ^ (1 << uint(r.Intn(7)))
	case 2:
		n.addr = b.addr + genDigits(r, 1)
	case 3:
		if len(b.addr) > 0 {
			n.addr = b.addr[:len(b.addr)-1]
		}
	case 4:
		if len(b.addr) > 0 {
			i := r.Intn(len(b.addr))
			n.addr = b.addr[:i] + genDigits(r, 1) + b.addr[i+1:]
		}
	case 5: // letters in the other case
		x := []byte(b.addr)
		for i := range x {
			if x[i] >= 'a' && x[i] <= 'z' {
				x[i] -= 32
				break
			} else if x[i] >= 'A' && x[i] <= 'Z' {
				x[i] += 32
				break
			}
		}
		n.addr = string(x)
	case 6: // a digit moves from the address to the reference
		if l := len(b.addr); l > 0 && b.addr[l-1] >= '1' && b.addr[l-1] <= '9' && b.ref < 10 {
			n.ref = int(b.addr[l-1]-'0')*10 + b.ref
			n.addr = b.addr[:l-1]
		} else {
			n.ref = (b.ref + 1) % 256
		}
	case 7: // a digit moves between the reference and the count
		if b.ref < 20 {
			n.ref = b.ref*10 + 1
			n.count = 2
			if b.count < 12 {
				n.count = b.count
			}
			if r.P(0.5) {
				b2 := b
				b2.count = 10 + b.count%10
				_ = b2
			}
		} else {
			n.ref = b.ref / 10
			n.count = (b.ref%10)*10 + b.count%10
		}
	case 8:
		n.ref = b.ref ^ (1 << uint(r.Intn(8)))
	case 9: // same low byte
		n.wide = true
		n.ref = (b.ref + 256*(1+r.Intn(255))) % 65536
	case 10: // bytes swapped
		n.wide = true
		n.ref = (b.ref>>8 | b.ref<<8) & 0xffff
	case 11:
		n.count = b.count + 1
	case 12:
		if b.count > 2 {
			n.count = b.count - 1
		} else {
			n.count = 2 + r.Intn(200)
		}
	}
	if n.count < 2 {
		n.count = 2
	}
	if n.count > 255 {
		n.count = 255
	}
	return n
}

func genExtraIEs(r *simrt.RNG) []IE {
	var ies []IE
	for r.P(0.25) && len(ies) < 3 {
		d := make([]byte, r.Intn(5))
		for i := range d {
			d[i] = byte(r.Next())
		}
		ies = append(ies, IE{pick[byte](r, 1, 3, 5, 9, 24, 25, 0x70, 0x22), d})
	}
	return ies
}

func (pl *ColPlan) addPart(p ColPart) int {
	pl.Parts = append(pl.Parts, p)
	return len(pl.Parts) - 1
}

func genUD(r *simrt.RNG) []byte {
	b := make([]byte, r.Intn(6))
	for i := range b {
		b[i] = byte(r.Next()) & 0x7f
	}
	return b
}

func (id colIdent) part(r *simrt.RNG, seq int) ColPart {
	p := ColPart{
		Type: id.typ, TOA: id.toa, Addr: id.addr, Multi: true, Wide: id.wide,
		Ref: id.ref, Count: id.count, Seq: seq,
		Pre: genExtraIEs(r), Post: genExtraIEs(r), UD: genUD(r), Decoy: r.Intn(4),
	}
	if r.P(0.3) {
		p.FO = byte(r.Next()) & 0xbc
	}
	if r.P(0.3) { // 0x40..: short message type 0, replace types
		p.PID = pick(r, 0x40+byte(r.Intn(8)), 0x7f, byte(r.Next()))
	}
	if r.P(0.3) {
		p.DCS = pick[byte](r, 4, 8, 0x10, 0x11, 0xc0, 0xc8, 0xd0, 0xe0, 0xf0, 0xf5, byte(r.Next()))
	}
	return p
}

// genCol draws a collector workload aimed at a property.
func genCol(r *simrt.RNG, prop string) *Plan {
	pl := &ColPlan{}
	p := &Plan{Prop: prop, Scenario: "collector", Col: pl}
	p.Seed = r.Next()
	p.MapSalt = r.Next()
	p.Policy = genPolicy(r, true)
	race := raceMode
	// time
	timeouts := prop == "C03" || prop == "C06" || r.P(0.6)
	if timeouts && !(prop == "C03" && r.P(0.04)) {
		pl.D = pick[int64](r, 10, 100, 1000, 1000, 60e9, 1, pick[int64](r, 7200e9+1, 3*24*3600e9, 30*24*3600e9))
		pl.Opt = true
		pl.Handler = !(r.P(0.12))
	} else {
		pl.Opt = r.P(0.5)
		pl.Handler = r.P(0.5)
	}
	if prop == "C06" {
		pl.Handler = true
	}
	big := !race && r.P(0.05) && (prop == "C01" || prop == "C02" || prop == "C03")
	// identities
	var ids []colIdent
	ids = append(ids, genIdent(r))
	nid := 1 + r.Intn(4)
	if prop == "C06" {
		nid = 2 + r.Intn(3)
	}
	for tries := 0; len(ids) < nid && tries < 20; tries++ {
		var n colIdent
		if r.P(0.8) {
			n = neighbour(r, ids[r.Intn(len(ids))])
		} else {
			n = genIdent(r)
		}
		ok := true
		for _, x := range ids {
			ok = ok && !x.clash(n)
		}
		if ok {
			ids = append(ids, n)
		}
	}
	if big {
		ids = ids[:1]
		ids[0].count = pick(r, 255, 254, 128, 129, 40+r.Intn(200), 40+r.Intn(60))
	}
	// A flood: many messages under way at once.
	flood := !race && !big && r.P(0.015)
	if flood {
		base := ids[0]
		base.count = 2 + r.Intn(2)
		ids = nil
		n := pick(r, 9, 17, 33, 65, 80, 101, 129, 200, 257, 300) + r.Intn(3)
		for i := 0; i < n; i++ {
			id := base
			if r.P(0.7) {
				id.ref = (base.ref + i) % 256
				if base.wide {
					id.ref = (base.ref + i) % 65536
				}
				if i > 255 && !base.wide {
					id.count++
				}
			} else {
				id.toa, id.addr = 0x91, fmt.Sprint(4670000000+i)
			}
			ids = append(ids, id)
		}
	}
	limit := 22
	if r.P(0.1) {
		limit = 60
	}
	pdrop := pick(r, 0, 0, 0.1, 0.3)
	pdup := pick(r, 0, 0.1, 0.3)
	if prop == "C03" || prop == "C06" {
		pdrop = pick(r, 0.1, 0.3, 0.5, 0.7)
	}
	// deliveries
	var seqs [][]int // per identity, part indices in arrival order
	for _, id := range ids {
		var list []int
		rounds := 1
		if flood {
			rounds = 1
		} else if r.P(0.35) {
			rounds = 2 + r.Intn(2)
		}
		if id.count > 6 && !big {
			rounds = 1
		}
		for k := 0; k < rounds; k++ {
			var round []int
			for s := 1; s <= id.count; s++ {
				if r.P(pdrop) || (id.count > 6 && !big && s > 4) {
					continue
				}
				i := pl.addPart(id.part(r, s))
				round = append(round, i)
				for r.P(pdup) {
					if r.P(0.4) {
						round = append(round, i) // the very same octets again
					} else {
						d := id.part(r, s)
						if r.P(0.5) {
							d.UD = pl.Parts[i].UD
						}
						round = append(round, pl.addPart(d))
					}
				}
			}
			if !r.P(0.3) {
				for i := len(round) - 1; i > 0; i-- {
					j := r.Intn(i + 1)
					round[i], round[j] = round[j], round[i]
				}
			}
			list = append(list, round...)
		}
		seqs = append(seqs, list)
	}
	// others: single, malformed, unsupported and (C08) contradictory ones
	var others []int
	pother := 0.35
	if prop == "C08" {
		pother = 0.8
	}
	for !flood && r.P(pother) && len(others) < 8 {
		o := ids[r.Intn(len(ids))].part(r, 1)
		switch r.Intn(6) {
		case 0:
			o.Multi = false
		case 1:
			o.Count = r.Intn(2)
			o.Seq = pick(r, 0, 1, 2, 200)
		case 2:
			o.Seq = pick(r, 0, o.Count+1, o.Count+2, 255)
			if o.Seq > 255 {
				o.Seq = 0
			}
		case 3:
			o.Type = pick(r, 1, 2, 4, 5, 6, 7)
			o.Seq = 1 + r.Intn(o.Count)
			if r.P(0.3) {
				o.Count = 2 + r.Intn(254)
				o.Seq = 1 + r.Intn(o.Count)
			}
		case 4:
			o.Type = pick(r, 1, 2, 4, 5, 6, 7)
			o.Seq = pick(r, 0, o.Count+1)
		case 5:
			if prop != "C08" {
				continue
			}
			o.Addr += "9999" + genDigits(r, 2)
			o.Wild = genWild(r)
			o.Type = pick(r, o.Type, o.Type, o.Type, r.Intn(8))
		}
		others = append(others, pl.addPart(o))
	}
	// interleave the arrivals
	var order []int
	idx := make([]int, len(seqs))
	if flood { // all the first arrivals, then the others
		for k := 0; k < 6; k++ {
			for _, q := range seqs {
				if k < len(q) {
					order = append(order, q[k])
				}
			}
			if n := len(order); k > 0 && r.P(0.5) {
				for i := 0; i < 20; i++ {
					a, b := n-1-r.Intn(n/2), n-1-r.Intn(n/2)
					order[a], order[b] = order[b], order[a]
				}
			}
		}
	}
	for !flood {
		var live []int
		for i := range seqs {
			if idx[i] < len(seqs[i]) {
				live = append(live, i)
			}
		}
		if len(others) > 0 && (len(live) == 0 || r.P(0.2)) {
			order = append(order, others[0])
			others = others[1:]
			continue
		}
		if len(live) == 0 {
			break
		}
		k := live[r.Intn(len(live))]
		order = append(order, seqs[k][idx[k]])
		idx[k]++
	}
	if !big && !flood && len(order) > limit {
		order = order[:limit]
	}
	nt := 1 + r.Intn(4)
	if prop == "C04" {
		nt = 2 + r.Intn(3)
	}
	if race && nt == 1 {
		nt = 2
	}
	if big || flood {
		nt = 1 + r.Intn(2)
		sometimes := pick(r, 100000, 1000, 100)
		if p.Policy.Kind == simrt.RandomWalk && flood {
			p.Policy.Mean = sometimes
		}
	}
	pl.Tasks = make([][]ColOp, nt)
	psleep := 0.0
	if pl.D > 0 {
		psleep = pick(r, 0.05, 0.2, 0.5)
	} else if r.P(0.3) {
		psleep = 0.1
	}
	if big {
		psleep = pick(r, 0, 0.01, 0.1)
	}
	if flood {
		psleep = pick(r, 0, 0, 0.002, 0.01)
	}
	ppipes := pick(r, 0, 0.1)
	if prop == "C07" || prop == "C04" {
		ppipes = pick(r, 0.1, 0.2, 0.4)
	}
	if big {
		ppipes = 0.02
	}
	if flood {
		ppipes = pick(r, 0, 0.005)
	}
	sticky := r.P(0.4)
	cur := 0
	for _, o := range order {
		if !sticky || r.P(0.3) {
			cur = r.Intn(nt)
		}
		t := &pl.Tasks[cur]
		if r.P(psleep) {
			*t = append(*t, ColOp{Kind: "sleep", D: genSleep(r, pl.D)})
		} else if r.P(0.1) {
			*t = append(*t, ColOp{Kind: "yield"})
		}
		*t = append(*t, ColOp{Kind: "collect", Part: o})
		if r.P(ppipes) {
			*t = append(*t, genPipes(r, pl, prop))
		}
	}
	// closing
	pclose := 0.08
	if prop == "C05" {
		pclose = 0.95
	} else if prop == "C04" {
		pclose = 0.3
	}
	if prop == "C03" || prop == "C02" {
		pclose = 0.05
	}
	if r.P(pclose) {
		for n := 1 + r.Intn(3); n > 0; n-- {
			t := &pl.Tasks[r.Intn(nt)]
			i := r.Intn(len(*t) + 1)
			if r.P(0.4) && len(*t) > 1 {
				i = len(*t)/2 + r.Intn(len(*t)-len(*t)/2)
			}
			x := append([]ColOp(nil), (*t)[:i]...)
			if r.P(0.3) {
				x = append(x, ColOp{Kind: "sleep", D: genSleep(r, pl.D)})
			}
			x = append(x, ColOp{Kind: "close"})
			if r.P(0.3) {
				x = append(x, ColOp{Kind: "close"})
			}
			*t = append(x, (*t)[i:]...)
		}
	}
	// the handler
	if pl.Handler && pl.D > 0 {
		pw := 0.25
		if prop == "C06" {
			pw = 1
		}
		if r.P(pw) {
			for n := 1 + r.Intn(3); n > 0; n-- {
				var acts []ColOp
				for k := r.Intn(4); k > 0; k-- {
					switch r.Intn(6) {
					case 0:
						acts = append(acts, ColOp{Kind: "sleep", D: genSleep(r, pl.D)})
					case 1:
						acts = append(acts, ColOp{Kind: "block"})
					case 2, 3:
						if len(pl.Parts) > 0 {
							id := ids[r.Intn(len(ids))]
							pt := id.part(r, 1+r.Intn(id.count))
							acts = append(acts, ColOp{Kind: "collect", Part: pl.addPart(pt)})
						}
					case 4:
						acts = append(acts, ColOp{Kind: "pipes"})
					case 5:
						if r.P(0.3) || prop == "C06" && r.P(0.5) {
							acts = append(acts, ColOp{Kind: "close"})
						} else {
							acts = append(acts, ColOp{Kind: "sleep", D: 20 * pl.D})
						}
					}
				}
				pl.HActs = append(pl.HActs, acts)
			}
		}
	}
	// afterwards
	if r.P(0.3) || prop == "C05" {
		if r.P(0.7) {
			pl.Tail = append(pl.Tail, ColOp{Kind: "close"})
		}
		for k := 1 + r.Intn(3); k > 0 && len(pl.Parts) > 0; k-- {
			pl.Tail = append(pl.Tail, ColOp{Kind: "collect", Part: r.Intn(len(pl.Parts))})
		}
		pl.Tail = append(pl.Tail, ColOp{Kind: "sleep", D: genSleep(r, pl.D)})
		if r.P(0.5) {
			pl.Tail = append(pl.Tail, ColOp{Kind: "close"}, ColOp{Kind: "close"})
		}
	}
	n := len(pl.Tail)
	for _, t := range append(append([][]ColOp(nil), pl.Tasks...), pl.HActs...) {
		n += len(t)
	}
	// far beyond what any workload needs
	p.MaxSteps = 400000 + 2000*int64(n)
	return p
}

func genPipes(r *simrt.RNG, pl *ColPlan, prop string) ColOp {
	o := ColOp{Kind: "pipes"}
	if r.P(0.5) {
		o.D = genSleep(r, pl.D)
	}
	if prop == "C07" {
		o.Mut = pick(r, "", "clear", "reverse", "drop", "clear")
	}
	return o
}

func genSleep(r *simrt.RNG, d int64) int64 {
	if d <= 1 {
		return pick[int64](r, 1, 2, 3, 5, 10)
	}
	return pick(r, 1, d/3+1, d/2, d/2+1, d-1, d, d, d+1, 2*d, 3*d)
}

func genWild(r *simrt.RNG) []IE {
	ies := []IE{}
	for n := 1 + r.Intn(4); n > 0; n-- {
		id := pick[byte](r, 0, 8)
		d := make([]byte, pick(r, 3, 4, 3, 4, 0, 1, 2, 5))
		for i := range d {
			d[i] = pick[byte](r, 0, 1, 2, 3, 255, byte(r.Next()))
		}
		ies = append(ies, IE{id, d})
	}
	return ies
}
