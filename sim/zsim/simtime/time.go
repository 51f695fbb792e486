// Package simtime stands in for package time: the clock is the simulator's.
package simtime

import (
	"time"

	"github.com/rmera/boo/zsim/simrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC1123     = time.RFC1123
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	January     = time.January
	December    = time.December
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

var base = time.Date(2024, 9, 19, 0, 0, 0, 0, time.UTC)

func Now() Time              { return base.Add(simrt.Now()) }
func Since(t Time) Duration  { return Now().Sub(t) }
func Until(t Time) Duration  { return t.Sub(Now()) }
func Unix(s, n int64) Time   { return time.Unix(s, n) }
func UnixMilli(m int64) Time { return time.UnixMilli(m) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

func Sleep(d Duration) {
	if !simrt.Active() || simrt.Dead() {
		return
	}
	t := simrt.Self()
	simrt.After(d, func() { simrt.MakeReady(t) })
	simrt.Block("sleep")
}

// Timer is time.Timer.
type Timer struct {
	C <-chan Time
	c chan Time
	t *simrt.Timer
	f func()
}

func (t *Timer) arm(d Duration) {
	t.t = simrt.After(d, func() {
		if t.f != nil {
			simrt.Spawn(t.f)
			return
		}
		simrt.TrySendModel(t.c, Now())
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }
func (t *Timer) Stop() bool        { return t.t.Stop() }
func (t *Timer) Reset(d Duration) bool {
	w := t.t.Stop()
	t.arm(d)
	return w
}

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan Time
	c    chan Time
	t    *simrt.Timer
	d    Duration
	left int
}

func (t *Ticker) arm() {
	t.t = simrt.After(t.d, func() {
		simrt.TrySendModel(t.c, Now())
		if t.left--; t.left > 0 {
			t.arm()
		}
	})
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d, left: 100000}
	t.arm()
	return t
}

func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
func (t *Ticker) Stop()            { t.t.Stop() }
func (t *Ticker) Reset(d Duration) { t.t.Stop(); t.d = d; t.arm() }
