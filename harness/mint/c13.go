package mint

import (
	"errors"
	"time"
)

// C13: timers fire exactly once, in order, and only after their deadline.

// vfTimer is the model of one timer; times in nanoseconds since the start.
type vfTimer struct {
	label     string
	deadline  int
	cancelled bool
	fired     int
	kind      int // what the callback does
	target    int
}

type vfTimers struct {
	ts    *timerSet
	now   int
	all   []*vfTimer
	order []*vfTimer // fired since the last check started
	boom  error
}

var vfLabels = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}

func (m *vfTimers) start(label string, delay int, kind int) {
	t := &vfTimer{label: label, deadline: m.now + delay*1000000, kind: kind}
	m.all = append(m.all, t)
	m.ts.start(label, func() error {
		t.fired++
		m.order = append(m.order, t)
		vfAssert(t.fired == 1, "a timer fires twice")
		vfAssert(!t.cancelled, "a cancelled timer fires")
		vfAssert(t.deadline < m.now || t.deadline == m.now, "a timer fires before its deadline")
		switch t.kind {
		case 1: // re-arm, as retransmission does
			m.start(label, int(vfU8("redelay")&3), 0)
			vfReach("rearmed")
		case 2:
			vfReach("failed")
			return m.boom
		case 3:
			m.cancel(m.all[t.target%len(m.all)].label)
		case 4: // arm two more
			m.start(label+"1", int(vfU8("redelay")&3), 0)
			m.start(label+"2", int(vfU8("redelay")&3), 0)
		}
		return nil
	}, uint32(delay))
}

func (m *vfTimers) cancel(label string) {
	m.ts.cancel(label)
	for _, t := range m.all {
		if t.label == label && t.fired == 0 {
			t.cancelled = true
		}
	}
}

// pending is the number of timers still to fire and the earliest of them.
func (m *vfTimers) pending() (int, int) {
	n, first := 0, 1000000000
	for _, t := range m.all {
		if t.fired == 0 && !t.cancelled {
			n++
			if t.deadline < first {
				first = t.deadline
			}
		}
	}
	return n, first
}

func (m *vfTimers) check() {
	m.order = nil
	// what has to fire; callbacks may add or cancel
	err := m.ts.check(vfTimeNow())
	for i := 1; i < len(m.order); i++ {
		vfAssert(m.order[i-1].deadline <= m.order[i].deadline, "a later deadline fires before an earlier one")
	}
	if len(m.order) > 0 {
		vfReach("fired")
	}
	if err != nil {
		vfAssert(err == m.boom && len(m.order) > 0 && m.order[len(m.order)-1].kind == 2, "check fails although no callback failed")
		return
	}
	for _, t := range m.order {
		vfAssert(t.kind != 2, "a callback's error is lost")
	}
	for _, t := range m.all {
		if t.deadline < m.now {
			vfAssert(t.fired == 1 || t.cancelled, "an expired timer does not fire at the first check after its deadline")
		}
	}
}

func (m *vfTimers) report() {
	n, first := m.pending()
	some, left := m.ts.remaining()
	vfAssert(some == (n > 0), "remaining reports a pending timer wrongly")
	if n > 0 {
		want := time.Duration(first - m.now)
		vfAssert(left == want, "remaining is not the time to the earliest pending timer")
	}
	vfAssert(len(m.ts.getAllTimers()) == n, "a pending timer is lost from the set, or a finished one still listed")
	for _, t := range m.all {
		if t.fired == 0 && !t.cancelled {
			got := m.ts.getTimer(t.label)
			vfAssert(got != nil, "a pending timer cannot be found")
		}
	}
}

func vfNewTimers() *vfTimers {
	return &vfTimers{ts: newTimerSet(), boom: errors.New("callback failed")}
}

// VF_C13_history
//
//vf:bounds every history of 3 (thorough 4) operations out of: start a timer (delay 0..3 ms, symbolic; a label of its own or that of the first; callback plain, re-arming, failing, cancelling another or starting two more), cancel a label, advance the clock 0..2 ms and check; then checks until everything is over
//vf:budget 100 500
//vf:reach fired cancelled failed rearmed
func VF_C13_history() {
	m := vfNewTimers()
	n := vfParam("ops", 3, 4)
	started := 0
	for i := 0; i < n; i++ {
		op := vfChoice("op", 3)
		switch {
		case op == 0:
			l := vfLabels[started]
			if started > 0 && vfFlag("samelabel") {
				l = vfLabels[0]
			}
			m.start(l, int(vfU8("delay")&3), vfChoice("kind", 5))
			m.all[len(m.all)-1].target = started + 1
			started++
		case op == 1 && started > 0:
			l := vfLabels[vfChoice("label", started)]
			m.cancel(l)
			vfReach("cancelled")
		case op == 2:
			m.step(vfLen("adv", 0, 2))
		default:
			vfStop()
		}
	}
	m.finish()
}

// step advances the clock to just after n ms and checks.
func (m *vfTimers) step(n int) {
	m.now += n*1000000 + 1
	vfAdvance(uint64(n)*1000000 + 1)
	m.check()
	m.report()
}

func (m *vfTimers) finish() {
	for i := 0; i < 6; i++ {
		m.step(4)
	}
	for _, t := range m.all {
		if t.cancelled {
			vfAssert(t.fired == 0, "a cancelled timer fires")
		} else {
			vfAssert(t.fired == 1, "a timer is lost")
		}
	}
}

// VF_C13_order: many plain timers.
//
//vf:bounds 3 (thorough 4) timers with any delay of 0..7 ms, started up to 1 ms apart, one of them possibly cancelled; checks after 0..3, 0..3 and 30 ms
//vf:reach fired
func VF_C13_order() {
	m := vfNewTimers()
	n := vfParam("timers", 3, 4)
	for i := 0; i < n; i++ {
		m.start(vfLabels[i], int(vfU8("delay")&7), 0)
		if i == 1 && vfFlag("pause") {
			m.step(1)
		}
	}
	if k := vfChoice("cancel", n+1); k < n {
		m.cancel(vfLabels[k])
	}
	m.report()
	m.step(vfLen("adv", 0, 3))
	m.step(vfLen("adv", 0, 3))
	m.finish()
}

// VF_C13_delay: the deadline is the whole delay away, whatever the delay.
//
//vf:bounds one timer with any 32-bit delay in milliseconds, or two whose delays have any top eight and bottom two bits; checked at any later instant (60-bit number of nanoseconds)
//vf:reach fired pending
func VF_C13_delay() {
	ts := newTimerSet()
	now := vfTimeNow()
	n := vfLen("timers", 1, 2)
	fired := make([]int, n)
	order := 0
	delay := make([]uint32, n)
	for i := range delay {
		i := i
		if n == 1 {
			delay[i] = vfU32("delay")
		} else {
			delay[i] = uint32(vfU8("hours"))<<24 | uint32(vfU8("ms")&3)
		}
		ts.start(vfLabels[i], func() error { order++; fired[i] = order; return nil }, delay[i])
	}
	if n == 1 {
		some, left := ts.remaining()
		vfAssert(some && left == time.Duration(delay[0])*time.Millisecond, "remaining is not the time to the deadline")
	}
	at := time.Duration(vfU64("at") & (1<<60 - 1))
	vfAssert(ts.check(now.Add(at)) == nil, "check fails although no callback failed")
	for i := range delay {
		d := time.Duration(delay[i]) * time.Millisecond
		if fired[i] != 0 {
			vfAssert(at >= d, "a timer fires before its deadline")
			vfReach("fired")
		} else {
			vfAssert(at <= d, "an expired timer does not fire")
			vfReach("pending")
		}
	}
	if n == 2 && fired[0] != 0 && fired[1] != 0 {
		vfAssert(delay[0] <= delay[1] == (fired[0] < fired[1]), "a later deadline fires before an earlier one")
	}
}
