S = "des/simulator.go"
H = '''package des

import (
	"testing"
	"time"
)

type mod struct {
	log  *[]string
	name string
	at   []time.Duration
	f    func(p any, at time.Duration) []OutgoingMessage
	from []Module
}

func (m *mod) HandleMessage(p any, from Module, at time.Duration) []OutgoingMessage {
	if s, ok := p.(string); ok && m.log != nil {
		*m.log = append(*m.log, s)
	}
	m.at = append(m.at, at)
	m.from = append(m.from, from)
	if m.f != nil {
		return m.f(p, at)
	}
	return nil
}

func join(a []string) (s string) {
	for _, x := range a {
		s += x
	}
	return
}
'''
SEEDS = [
dict(id="c18-tie-by-sender-batch", prop="C18", pkg="des",
 edits=[(S, "\tfor _, v := range nm {\n\t\ts.ScheduleMessage(v, m.to)\n\t}\n", "\tfor i := range nm {\n\t\ts.ScheduleMessage(nm[len(nm)-1-i], m.to)\n\t}\n")],
 needs="a module that sends two messages due at the same instant in one step",
 breaks="simultaneous messages of one step are delivered in reverse order",
 demo=H + '''
func TestDemo(t *testing.T) {
	var log []string
	b := &mod{log: &log}
	a := &mod{f: func(p any, at time.Duration) []OutgoingMessage {
		return []OutgoingMessage{{"1", b, 5}, {"2", b, 5}, {"3", b, 5}}
	}}
	s := &Simulator{}
	s.ScheduleMessage(OutgoingMessage{0, a, 0}, a)
	s.Run()
	if join(log) != "123" {
		t.Fatal(log)
	}
}
'''),
dict(id="c18-seq-wraps", prop="C18", pkg="des",
 edits=[(S, "\t\treturn pq[i].seq < pq[j].seq\n", "\t\treturn uint8(pq[i].seq) < uint8(pq[j].seq)\n")],
 needs="simultaneous messages whose sequence numbers straddle a multiple of 256",
 breaks="order of simultaneous messages",
 demo=H + '''
func TestDemo(t *testing.T) {
	var log []string
	b := &mod{log: &log}
	s := &Simulator{}
	want := ""
	for i := 0; i < 600; i++ {
		x := string(rune('A' + i%50))
		want += x
		s.ScheduleMessage(OutgoingMessage{x, b, 5}, b)
	}
	s.Run()
	if join(log) != want {
		t.Fatal(join(log))
	}
}
'''),
dict(id="c18-self-delay-absolute", prop="C18", pkg="des",
 edits=[(S, "\t\tm := queuedMessage{s.time + msg.Delay, s.seq, from, from, msg.Payload}\n", "\t\tm := queuedMessage{s.time + msg.Delay.Round(time.Microsecond), s.seq, from, from, msg.Payload}\n")],
 needs="a message to oneself with a delay that is not a whole number of microseconds",
 breaks="loopback messages arrive early or late",
 demo=H + '''
func TestDemo(t *testing.T) {
	a := &mod{}
	s := &Simulator{}
	s.ScheduleMessage(OutgoingMessage{"x", nil, 1234567}, a)
	s.Run()
	if a.at[0] != 1234567 {
		t.Fatal(a.at)
	}
}
'''),
dict(id="c18-sender-is-addressee", prop="C18", pkg="des",
 edits=[(S, "\tnm := m.to.HandleMessage(m.payload, m.from, s.time)\n\tfor _, v := range nm {\n\t\ts.ScheduleMessage(v, m.to)\n", "\tnm := m.to.HandleMessage(m.payload, m.from, s.time)\n\tsender := m.to\n\tfor i, v := range nm {\n\t\tif i > 0 && v.To == nil {\n\t\t\tsender = m.from\n\t\t}\n\t\ts.ScheduleMessage(v, sender)\n")],
 needs="a step that sends a loopback message after another message",
 breaks="the loopback goes to the module that sent the handled message, and later messages carry a wrong sender",
 demo=H + '''
func TestDemo(t *testing.T) {
	c := &mod{}
	a, b := &mod{}, &mod{}
	b.f = func(p any, at time.Duration) []OutgoingMessage {
		if p == "go" {
			return []OutgoingMessage{{"x", c, 1}, {"y", nil, 1}}
		}
		return nil
	}
	s := &Simulator{}
	s.ScheduleMessage(OutgoingMessage{"go", b, 0}, a)
	s.Run()
	if len(b.at) != 2 || len(c.at) != 1 || c.from[0] != Module(b) || b.from[1] != Module(b) {
		t.Fatal(len(b.at), len(c.at))
	}
}
'''),
dict(id="c19-stops-before-due", prop="C19", pkg="des",
 edits=[(S, "for !s.Drained() && s.time <= t {", "for !s.Drained() && s.time < t {")],
 needs="messages due exactly at the requested time, more than one of them",
 breaks="run-until leaves messages due by the requested time undelivered",
 demo=H + '''
func TestDemo(t *testing.T) {
	a := &mod{}
	s := &Simulator{}
	for i := 0; i < 3; i++ {
		s.ScheduleMessage(OutgoingMessage{"x", a, 10}, a)
	}
	s.RunUntil(10)
	if len(a.at) != 3 {
		t.Fatal(len(a.at))
	}
}
'''),
dict(id="c19-clock-jumps", prop="C19", pkg="des",
 edits=[(S, "\tfor !s.Drained() && s.time <= t {\n\t\ts.deliverNextMessage()\n\t}\n", "\tfor !s.Drained() && s.time <= t {\n\t\ts.deliverNextMessage()\n\t}\n\tif s.Drained() && s.time < t {\n\t\ts.time = t\n\t}\n")],
 needs="a run-until past the last message, followed by new messages",
 breaks="the clock does not show the last delivery; later messages are late",
 demo=H + '''
func TestDemo(t *testing.T) {
	a := &mod{}
	s := &Simulator{}
	s.ScheduleMessage(OutgoingMessage{"x", a, 10}, a)
	s.RunUntil(100)
	if s.Time() != 10 {
		t.Fatal(s.Time())
	}
}
'''),
dict(id="c19-batch-overshoot", prop="C19", pkg="des",
 edits=[(S, "\tfor !s.Drained() && s.time <= t {\n\t\ts.deliverNextMessage()\n\t}\n", "\tfor !s.Drained() && s.time <= t {\n\t\tdue := s.mq[0].arrival\n\t\tfor !s.Drained() && s.mq[0].arrival == due {\n\t\t\ts.deliverNextMessage()\n\t\t}\n\t}\n")],
 needs="several messages due at the same instant after the requested time",
 breaks="run-until overshoots by a whole batch",
 demo=H + '''
func TestDemo(t *testing.T) {
	a := &mod{}
	s := &Simulator{}
	for i := 0; i < 3; i++ {
		s.ScheduleMessage(OutgoingMessage{"x", a, 10}, a)
	}
	s.RunUntil(5)
	if len(a.at) > 1 {
		t.Fatal(len(a.at))
	}
}
'''),
]
