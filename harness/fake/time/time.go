// Package time stands in for the real one: the clock may show anything.
package time

import (
	real "time"

	"github.com/zeldovich/go-rpcgen/zz_verif/f/ffs"
)

type (
	Time     = real.Time
	Duration = real.Duration
	Month    = real.Month
	Weekday  = real.Weekday
	Location = real.Location
)

const (
	Nanosecond  = real.Nanosecond
	Microsecond = real.Microsecond
	Millisecond = real.Millisecond
	Second      = real.Second
	Minute      = real.Minute
	Hour        = real.Hour

	ANSIC       = real.ANSIC
	UnixDate    = real.UnixDate
	RFC822      = real.RFC822
	RFC822Z     = real.RFC822Z
	RFC850      = real.RFC850
	RFC1123     = real.RFC1123
	RFC1123Z    = real.RFC1123Z
	RFC3339     = real.RFC3339
	RFC3339Nano = real.RFC3339Nano
	Kitchen     = real.Kitchen
	Stamp       = real.Stamp
	DateTime    = real.DateTime
	DateOnly    = real.DateOnly
	TimeOnly    = real.TimeOnly
)

func Now() Time {
	t := real.Unix(1700000000, 5).UTC()
	if ffs.Any(2) == 1 {
		t = real.Unix(1234567890, 7654321).UTC()
	}
	return t
}

func Since(t Time) Duration     { return Now().Sub(t) }
func Until(t Time) Duration     { return t.Sub(Now()) }
func Unix(sec, nsec int64) Time { return real.Unix(sec, nsec).UTC() }
func Sleep(Duration)            {}
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return real.Date(y, m, d, h, mi, s, ns, real.UTC)
}
