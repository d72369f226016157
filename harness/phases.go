package main

import (
	"verif/simrt"
)

// phase is one kind of workload of a check.
type phase struct {
	name     string
	id       uint64
	race     bool
	quick    int64
	thorough int64
	pool     []string // where hot-site schedules preempt
	gen      func(r *simrt.RNG, prop string) *Plan
}

func phases(prop string) []phase {
	col := func(q, t int64) phase {
		return phase{name: "collector", id: 1, quick: q, thorough: t, pool: []string{"collect.go"}, gen: genCol}
	}
	colRace := func(q, t int64) phase {
		return phase{name: "collector, race detector", id: 2, race: true, quick: q, thorough: t, pool: []string{"collect.go"}, gen: genCol}
	}
	e2e := func(q, t int64) phase {
		return phase{name: "end to end", id: 3, quick: q, thorough: t, pool: []string{"encode.go", "collect.go", "sms.go", "encoding/tpdu/", "encoding/gsm7/"}, gen: genE2E}
	}
	enc := func(q, t int64) phase {
		return phase{name: "encoder", id: 4, quick: q, thorough: t, pool: []string{"encode.go", "options.go", "encoding/tpdu/tpdu.go", "encoding/tpdu/options.go", "encoding/tpdu/userdata.go", "encoding/tpdu/dcs.go"}, gen: genEnc}
	}
	encRace := func(q, t int64) phase {
		p := enc(q, t)
		p.name, p.id, p.race = "encoder, race detector", 5, true
		return p
	}
	codec := func(q, t int64) phase {
		return phase{name: "codec", id: 6, quick: q, thorough: t, pool: []string{"encoding/"}, gen: genCodec}
	}
	codecRace := func(q, t int64) phase {
		p := codec(q, t)
		p.name, p.id, p.race = "codec, race detector", 7, true
		return p
	}
	bufs := func(q, t int64) phase {
		return phase{name: "buffers", id: 8, quick: q, thorough: t, pool: []string{"sms.go", "collect.go", "encoding/"}, gen: genBuf}
	}
	bufsRace := func(q, t int64) phase {
		p := bufs(q, t)
		p.name, p.id, p.race = "buffers, race detector", 9, true
		return p
	}
	xch := func(q, t int64) phase {
		return phase{name: "exchange", id: 10, quick: q, thorough: t, pool: []string{"encoding/"}, gen: genX}
	}
	switch prop {
	case "C24":
		return []phase{xch(150000, 6000000)}
	case "C14":
		return []phase{bufs(60000, 2000000), bufsRace(10000, 300000), e2e(5000, 250000)}
	case "C12":
		return []phase{codec(100000, 4000000), codecRace(12000, 400000)}
	case "C10":
		return []phase{enc(80000, 3000000), encRace(6000, 250000)}
	case "C11":
		return []phase{enc(80000, 3000000), encRace(8000, 300000)}
	case "C08":
		return []phase{e2e(20000, 800000), col(30000, 1200000), xch(30000, 1200000)}
	case "C21":
		p := e2e(60000, 2500000)
		p.name = "parts gathered without a collector"
		return []phase{p}
	case "C09":
		return []phase{e2e(30000, 1000000)}
	case "C13":
		return []phase{e2e(80000, 2000000)}
	case "C01", "C02", "C03", "C05":
		return []phase{col(120000, 4000000)}
	case "C06":
		return []phase{col(80000, 3000000)}
	case "C04", "C07":
		return []phase{col(120000, 4000000), colRace(12000, 400000)}
	}
	return nil
}

// genPlan draws run i of a phase.
func genPlan(prop string, ph phase, seed uint64, i int64) *Plan {
	pn := uint64(0)
	for _, c := range prop {
		pn = pn*131 + uint64(c)
	}
	setHotPool(ph.pool...)
	r := simrt.NewRNG(simrt.Mix(seed, pn, ph.id, uint64(i)))
	p := ph.gen(r, prop)
	p.Run = i
	return p
}
