// Package time stands in for the standard package in instrumented code.
package time

import (
	"time"

	"verif/simrt"
)

// Types that carry no behaviour of their own.
type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	Weekday    = time.Weekday
	Time       = time.Time
	ParseError = time.ParseError
)

// Constants.
const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

// Variables.
var (
	UTC   = time.UTC
	Local = time.Local
)

// Pure functions.
var (
	Date                   = time.Date
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	Parse                  = time.Parse
	ParseDuration          = time.ParseDuration
	ParseInLocation        = time.ParseInLocation
	Unix                   = time.Unix
	UnixMilli              = time.UnixMilli
	UnixMicro              = time.UnixMicro
)

// Epoch is the wall-clock time at which every simulation starts.
var Epoch = time.Date(2024, 2, 28, 23, 59, 0, 0, time.UTC)

// Now is the virtual time.
func Now() Time {
	if !simrt.Active() {
		return time.Now()
	}
	return Epoch.Add(Duration(simrt.Clock()))
}

// Since is time.Since.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep is time.Sleep.
func Sleep(d Duration) {
	if !simrt.Active() {
		time.Sleep(d)
		return
	}
	simrt.Sleep(int64(d))
}

// Timer replaces time.Timer.
type Timer struct {
	C    <-chan Time
	c    chan Time
	real *time.Timer
	sim  *simrt.Timer
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d Duration, f func()) *Timer {
	if !simrt.Active() {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	return &Timer{sim: simrt.AfterFunc(int64(d), f)}
}

// NewTimer is time.NewTimer.
func NewTimer(d Duration) *Timer {
	if !simrt.Active() {
		t := time.NewTimer(d)
		return &Timer{C: t.C, real: t}
	}
	c := make(chan Time, 1)
	return &Timer{C: c, c: c, sim: simrt.AfterHook(int64(d), func() {
		simrt.Offer(c, Epoch.Add(Duration(simrt.Clock())))
	})}
}

// Stop is time.Timer.Stop.
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	if t.sim == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.sim.Stop()
}

// Reset is time.Timer.Reset.
func (t *Timer) Reset(d Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	if t.sim == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	return t.sim.Reset(int64(d))
}

// After is time.After.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	real *time.Ticker
	sim  *simrt.Timer
	left int
}

// NewTicker is time.NewTicker.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !simrt.Active() {
		t := time.NewTicker(d)
		return &Ticker{C: t.C, real: t}
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.sim = simrt.AfterHook(int64(d), t.tick)
	return t
}

func (t *Ticker) tick() {
	simrt.Offer(t.c, Epoch.Add(Duration(simrt.Clock())))
	t.sim.Rearm(int64(t.d))
}

// Stop is time.Ticker.Stop.
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.sim.Stop()
}

// Reset is time.Ticker.Reset.
func (t *Ticker) Reset(d Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.d = d
	t.sim.Reset(int64(d))
}

// Tick is time.Tick.
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
