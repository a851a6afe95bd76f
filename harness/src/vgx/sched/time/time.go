// Package time stands in for the standard one in code under a generated
// schedule: sleeping lets the others run.
package time

import (
	"time"

	"vgx/sched"
)

type (
	Duration = time.Duration
	Time     = time.Time
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location
	Timer    = time.Timer
	Ticker   = time.Ticker
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
)

func Sleep(d Duration)                         { sched.Yield() }
func Now() Time                                { return time.Now() }
func Since(t Time) Duration                    { return time.Since(t) }
func Until(t Time) Duration                    { return time.Until(t) }
func Unix(sec, nsec int64) Time                { return time.Unix(sec, nsec) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
