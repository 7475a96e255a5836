package simrt

import (
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// The simulated clock. The real clock is never read.
type clock struct {
	on    bool
	now   int64 // unix nanoseconds
	mono  int64 // the monotonic clock, which no jump affects
	tick  int64 // added at every read
	reads int64

	jumpAt int64 // the read before which the clock jumps, -1: none
	jumpBy int64
	hist   [64]int64 // values read or set since ClockMark
	nhist  int
}

var c clock

// offReads counts clock reads made while no simulated clock was set.
var offReads int64

// OffClockReads returns how often the clock was read outside the runs that set it.
func OffClockReads() int64 { return atomic.LoadInt64(&offReads) }

// ClockSet starts the simulated clock.
//
//go:norace
func ClockSet(t time.Time, tick time.Duration) {
	c.on = true
	c.now = t.UnixNano()
	c.mono = 3_600_000_000_000
	c.tick = int64(tick)
	c.reads = 0
	c.jumpAt = -1
	c.nhist = 0
}

// ClockMark forgets the recorded readings.
//
//go:norace
func ClockMark() { c.nhist = 0 }

// ClockHist returns the values read or set since ClockMark.
//
//go:norace
func ClockHist() []time.Time {
	var r []time.Time
	for i := 0; i < c.nhist; i++ {
		r = append(r, time.Unix(0, c.hist[i]))
	}
	return r
}

//go:norace
func (c *clock) record(v int64) {
	if c.nhist > 0 && c.hist[c.nhist-1] == v {
		return
	}
	if c.nhist < len(c.hist) {
		c.hist[c.nhist] = v
		c.nhist++
	}
}

// ClockJump makes the clock jump right before the n-th next read (0: the next).
//
//go:norace
func ClockJump(n int, by time.Duration) { c.jumpAt, c.jumpBy = c.reads+int64(n), int64(by) }

// ClockJumpOff cancels a jump and tells whether it has happened.
//
//go:norace
func ClockJumpOff() bool {
	done := c.jumpAt >= 0 && c.reads > c.jumpAt
	c.jumpAt = -1
	return done
}

// ClockOff ends the use of the simulated clock.
//
//go:norace
func ClockOff() { c.on = false }

// ClockAdd makes the simulated wall clock jump.
//
//go:norace
func ClockAdd(d time.Duration) { c.now += int64(d); c.record(c.now) }

// ClockPeek reads the simulated clock without ticking.
//
//go:norace
func ClockPeek() time.Time { return time.Unix(0, c.now) }

// ClockReads returns how many reads happened since ClockSet.
//
//go:norace
func ClockReads() int64 { return c.reads }

// Now replaces time.Now.
//
//go:norace
func Now() time.Time {
	if !c.on {
		// Before the first run (package initialisation), at a fixed moment
		atomic.AddInt64(&offReads, 1)
		return ClockReading(time.Unix(1_600_000_000, 0), 1)
	}
	if c.reads == c.jumpAt {
		c.now += c.jumpBy
	}
	t, m := c.now, c.mono
	c.record(t)
	c.now += c.tick
	c.mono += c.tick
	c.reads++
	return ClockReading(time.Unix(0, t), m)
}

// timeLayout mirrors time.Time.
type timeLayout struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// monoOK tells whether readings can be composed for this version of package time.
var monoOK = func() bool {
	if unsafe.Sizeof(time.Time{}) != unsafe.Sizeof(timeLayout{}) {
		return false
	}
	t := time.Unix(1_600_000_000, 123_456_789)
	x := composeReading(t, 5_000_000_000)
	y := composeReading(t.Add(time.Hour), 7_000_000_000)
	return x.Equal(t.Add(0)) && x.Round(0) == t && y.Sub(x) == 2*time.Second && y.Round(0).Sub(x) == time.Hour && strings.HasSuffix(x.String(), " m=+5.000000000")
}()

func composeReading(t time.Time, mono int64) time.Time {
	l := (*timeLayout)(unsafe.Pointer(&t))
	l.wall = 1<<63 | uint64(t.Unix()+2682288000)<<30 | uint64(t.Nanosecond())
	l.ext = mono
	return t
}

// ClockReading returns t with a reading of the monotonic clock, as time.Now does.
//
//go:norace
func ClockReading(t time.Time, mono int64) time.Time {
	if y := t.Year(); !monoOK || y < 1886 || y > 2150 {
		return t
	}
	return composeReading(t, mono)
}

// ClockMono reads the simulated monotonic clock.
//
//go:norace
func ClockMono() int64 { return c.mono }

// ClockMonoWorks tells whether readings include the monotonic clock.
func ClockMonoWorks() bool { return monoOK }

// ClockWait lets time pass: both clocks advance.
//
//go:norace
func ClockWait(d time.Duration) {
	c.mono += int64(d)
	ClockAdd(d)
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	if d > 0 {
		ClockWait(d)
	}
	Y(2)
}
