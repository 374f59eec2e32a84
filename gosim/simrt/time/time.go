// Package time is the simulated time: the types are the real ones, the clock is the simulator's.
package time

import (
	rt "time"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

type (
	Time       = rt.Time
	Duration   = rt.Duration
	Month      = rt.Month
	Weekday    = rt.Weekday
	Location   = rt.Location
	ParseError = rt.ParseError
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour
	Layout      = rt.Layout
	ANSIC       = rt.ANSIC
	UnixDate    = rt.UnixDate
	RubyDate    = rt.RubyDate
	RFC822      = rt.RFC822
	RFC822Z     = rt.RFC822Z
	RFC850      = rt.RFC850
	RFC1123     = rt.RFC1123
	RFC1123Z    = rt.RFC1123Z
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	Kitchen     = rt.Kitchen
	Stamp       = rt.Stamp
	StampMilli  = rt.StampMilli
	DateTime    = rt.DateTime
	DateOnly    = rt.DateOnly
	TimeOnly    = rt.TimeOnly
	January     = rt.January
	February    = rt.February
	March       = rt.March
	April       = rt.April
	May         = rt.May
	June        = rt.June
	July        = rt.July
	August      = rt.August
	September   = rt.September
	October     = rt.October
	November    = rt.November
	December    = rt.December
	Sunday      = rt.Sunday
	Monday      = rt.Monday
	Tuesday     = rt.Tuesday
	Wednesday   = rt.Wednesday
	Thursday    = rt.Thursday
	Friday      = rt.Friday
	Saturday    = rt.Saturday
)

var (
	UTC   = rt.UTC
	Local = rt.UTC
)

func Now() Time {
	if core.S == nil {
		return rt.Unix(0, 0).UTC()
	}
	return local(rt.Unix(0, core.S.Epoch+core.Now()))
}

// local gives t in the simulated machine's time zone; the real package's notion of it is set along (Time.Local).
func local(t Time) Time {
	z := rt.UTC
	if core.S != nil && core.S.Zone != nil {
		z = core.S.Zone
	}
	if rt.Local != z {
		rt.Local = z
	}
	return t.In(z)
}
func Unix(s, n int64) Time                                   { return local(rt.Unix(s, n)) }
func UnixMilli(m int64) Time                                 { return local(rt.UnixMilli(m)) }
func UnixMicro(m int64) Time                                 { return local(rt.UnixMicro(m)) }
func Since(t Time) Duration                                  { return Now().Sub(t) }
func Until(t Time) Duration                                  { return t.Sub(Now()) }
func Parse(l, v string) (Time, error)                        { return rt.Parse(l, v) }
func ParseInLocation(l, v string, o *Location) (Time, error) { return rt.ParseInLocation(l, v, o) }
func ParseDuration(s string) (Duration, error)               { return rt.ParseDuration(s) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return rt.Date(y, m, d, h, mi, s, n, l)
}
func FixedZone(n string, o int) *Location      { return rt.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return rt.UTC, nil }
func Sleep(d Duration)                         { core.SysPoint("nanosleep"); core.Sleep(int64(d)) }

type stopper interface{ Stop() bool }
type Timer struct {
	C *core.Chan[Time]
	t stopper
	f func()
}

func (t *Timer) arm(d Duration) {
	t.t = core.At(int64(d), t.f)
}
func NewTimer(d Duration) *Timer {
	c := core.MakeChan[Time](1)
	t := &Timer{C: c}
	t.f = func() { c.TrySend(Now()) }
	t.arm(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	p := core.CurProc()
	t := &Timer{}
	t.f = func() { p.Spawn(f) }
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool {
	core.Point()
	b := t.t.Stop()
	if t.C != nil { // since Go 1.23 no stale value is received after Stop
		t.C.Drain()
	}
	return b
}
func (t *Timer) Reset(d Duration) bool {
	core.Point()
	b := t.t.Stop()
	if t.C != nil {
		t.C.Drain()
	}
	t.arm(d)
	return b
}
func After(d Duration) *core.Chan[Time] { return NewTimer(d).C }

type Ticker struct {
	C *core.Chan[Time]
	d Duration
	t stopper
	x bool
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: core.MakeChan[Time](1), d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	t.t = core.At(int64(t.d), func() {
		if !t.x {
			t.C.TrySend(Now())
			t.arm()
		}
	})
}
func (t *Ticker) Stop()            { t.x = true; t.t.Stop() }
func (t *Ticker) Reset(d Duration) { t.t.Stop(); t.d = d; t.x = false; t.arm() }
func Tick(d Duration) *core.Chan[Time] {
	return NewTicker(d).C
}
