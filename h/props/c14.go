package props

import (
	_ "time/tzdata" // daylight saving, wherever the check runs

	"fmt"
	"time"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/tpdu"
)

func init() {
	core.Register("C14",
		core.Sub{Name: "days", Bound: "every day from 1970-01-01 to 2069-12-31 x 3 times of day (midnight, last second, one between) x 9 zones: exact octets, back to instant and offset", Body: c14days},
		core.Sub{Name: "seconds", Bound: "every second of 4 days (leap day, year ends, 1970 and 2069 ends) x 3 zones", Body: c14seconds},
		core.Sub{Name: "zones", Bound: "every zone -79..79 quarter hours (and -90..90 refused outside) x 12 times of every month of 7 years, under 6 names", Body: c14zones},
		core.Sub{Name: "daylight", Bound: "12 zones of the tz database with daylight saving, half-hour and quarter-hour offsets x every half hour of 6 days around each change of offset (or solstice) of 5 years", Body: c14daylight},
		core.Sub{Name: "octets", Bound: "each of the 7 octets over all 256 values (pairs of octets thorough) in 4 time stamps x truncation to 0..7 octets and extension", Body: c14octets},
	)
	core.Assume("C14", "times outside 1970..2069, with fractional seconds or in zones that are not whole quarter hours have no representation and are not covered")
}

func c14rt(x *X, t time.Time) {
	x.Ops(2)
	want, ok := ref.SCTS(t)
	ts := tpdu.Timestamp{Time: t}
	got, err := ts.MarshalBinary()
	if x.V {
		x.Logf("%s marshals to %x, %v", t, got, err)
	}
	if ok != (err == nil) || ok && !eq(got, want) {
		x.Failf("%s marshals to %x, %v; want %x, %v", t, got, err, want, ok)
	}
	if !ts.Time.Equal(t) {
		x.Failf("marshalling changed the time %s to %s", t, ts)
	}
	if !ok {
		return
	}
	x.State(core.Hash(want))
	var back tpdu.Timestamp
	if err := back.UnmarshalBinary(want); err != nil || !ref.SameTime(back.Time, t) {
		x.Failf("%s = %x unmarshals to %s, %v", t, want, back.Time, err)
	}
	if back.String() != fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d %s", t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), c14zone(t)) {
		x.Failf("%s is shown as %s", t, back.String())
	}
}

func c14zone(t time.Time) string {
	_, z := t.Zone()
	s := "+"
	if z < 0 {
		s, z = "-", -z
	}
	return fmt.Sprintf("%s%02d%02d", s, z/3600, z/60%60)
}

func loc(q int) *time.Location {
	if q == 0 {
		return time.UTC
	}
	return time.FixedZone("any", q*900)
}

func c14days(x *X) {
	y := 1970 + x.Choose(100)
	d := x.Choose(366)
	z := x.Int(0, 1, -1, 40, -40, 79, -79, 4, -19)
	var h, m, s int
	switch x.Choose(3) {
	case 0:
	case 1:
		h, m, s = 23, 59, 59
	case 2:
		h, m, s = 10, 20, 39
	}
	t := time.Date(y, 1, 1+d, h, m, s, 0, loc(z))
	if t.Year() != y {
		return
	}
	c14rt(x, t)
}

func c14seconds(x *X) {
	day := [][3]int{{1970, 1, 1}, {2000, 2, 29}, {1999, 12, 31}, {2069, 12, 31}}[x.Choose(4)]
	z := x.Int(0, 41, -38)
	h := x.Choose(24)
	ms := x.Choose(3600)
	c14rt(x, time.Date(day[0], time.Month(day[1]), day[2], h, ms/60, ms%60, 0, loc(z)))
}

func c14zones(x *X) {
	q := x.Range(-90, 90)
	y := x.Int(1970, 1999, 2000, 2009, 2010, 2038, 2069)
	mo := 1 + x.Choose(12)
	k := x.Choose(12)
	t := time.Date(y, time.Month(mo), 1+k*2, k*2, k*5, 59-k*4, 0, loc(q))
	if k := x.Choose(6); k > 0 {
		// what a zone is called does not matter
		t = t.UTC().In(time.FixedZone([]string{"", "UTC", "GMT", "SCTS", "Local"}[k-1], q*900))
	}
	if t.Year() < 1970 || t.Year() > 2069 {
		return
	}
	c14rt(x, t)
}

func c14octets(x *X) {
	b := [][]byte{{0x07, 0x10, 0x10, 0x00, 0x00, 0x00, 0x00}, {0x99, 0x21, 0x13, 0x32, 0x95, 0x95, 0x97}, {0x96, 0x20, 0x92, 0x21, 0x43, 0x65, 0x2d}, {0x02, 0x90, 0x03, 0x42, 0x52, 0x12, 0x09}}[x.Choose(4)]
	b = append([]byte{}, b...)
	b[x.Choose(7)] = byte(x.Choose(256))
	if x.Thorough() {
		b[x.Choose(7)] = byte(x.Choose(256))
	}
	n := x.Choose(9)
	if n < 8 {
		b = b[:min(n, 7)]
	} else {
		b = append(b, 0xff, 0xaa)
	}
	x.Op()
	x.State(core.Hash(b))
	src, changed := guarded(b, 8)
	var got tpdu.Timestamp
	err := got.UnmarshalBinary(src)
	want, ok := ref.UnSCTS(b)
	x.Logf("time stamp from %x: %s, %v", b, got.Time, err)
	if m := changed(); m != "" {
		x.Failf("unmarshalling time stamp %x: %s", b, m)
	}
	if ok != (err == nil) {
		x.Failf("time stamp from %x: %s, error %v; want error %v", b, got.Time, err, !ok)
	}
	if ok && !ref.SameTime(got.Time, want) {
		x.Failf("time stamp from %x: %s; want %s", b, got.Time, want)
	}
}

var c14places = []string{"UTC", "Europe/London", "Europe/Berlin", "America/New_York", "America/St_Johns", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Chatham", "Pacific/Apia", "America/Sao_Paulo", "Africa/Casablanca", "Asia/Kolkata"}

func c14daylight(x *X) {
	l, err := time.LoadLocation(c14places[x.Choose(len(c14places))])
	if err != nil {
		panic(err)
	}
	y := x.Int(1999, 2007, 2010, 2019, 2024)
	// the days at which the offset changes, or else the solstices
	var days []time.Time
	for d := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC); d.Year() == y; d = d.AddDate(0, 0, 1) {
		_, a := d.In(l).Zone()
		_, b := d.AddDate(0, 0, 1).In(l).Zone()
		if a != b {
			days = append(days, d)
		}
	}
	days = append(days, time.Date(y, 6, 21, 0, 0, 0, 0, time.UTC), time.Date(y, 12, 21, 0, 0, 0, 0, time.UTC))
	d := days[x.Choose(len(days))]
	t := d.Add(time.Duration(x.Range(-48*2, 48*4)) * 30 * time.Minute).In(l)
	if _, z := t.Zone(); z%900 != 0 {
		return
	}
	c14rt(x, t)
}
