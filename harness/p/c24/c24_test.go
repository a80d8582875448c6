package c24

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/event"
	"github.com/bantling/micro/funcs"
	"verif/harness/vt"
)

type registry = event.Registry[int, string]

// trace is the tags of the receivers called
var trace []string

// ptr is a receiver by reference; it may do something while it processes an event
type ptr struct {
	tag string
	do  func()
}

func (r *ptr) Process(s string) string {
	trace = append(trace, r.tag)
	if r.do != nil {
		r.do()
	}
	return s + r.tag
}

// val and val2 are receivers by value
type val struct{ tag string }

func (r val) Process(s string) string { trace = append(trace, r.tag); return s + r.tag }

type val2 struct{ tag string }

func (r val2) Process(s string) string {
	trace = append(trace, r.tag+"'")
	return s + r.tag + "'"
}

func double(s string) string { trace = append(trace, "D"); return s + "D" }
func triple(s string) string { trace = append(trace, "T"); return s + "T" }

// entry is one registration
type entry struct {
	id, rcvr, no int
}

// pool is receivers and their tags; receivers of different types have equal contents
func pool() (rs []event.Receiver[string], tags []string) {
	add := func(r event.Receiver[string], tag string) { rs, tags = append(rs, r), append(tags, tag) }
	add(&ptr{tag: "a"}, "a")
	add(&ptr{tag: "a"}, "a")
	add(&ptr{tag: "b"}, "b")
	add(val{"a"}, "a")
	add(val{"b"}, "b")
	add(val2{"a"}, "a'")
	add(val2{"b"}, "b'")
	add(event.ReceiverFunc[string](double), "D")
	add(event.ReceiverFunc[string](triple), "T")
	return
}

// model is the registrations in order
type model struct {
	es []entry
	no int
	// what the ids from -1 are instead, if not nil
	spread []int
}

// spreads are ids in ascending order, which are far from each other, and whose differences overflow
var spreads = [][]int{nil, nil, {math.MinInt, math.MinInt + 1, 0, math.MaxInt - 1, math.MaxInt, 1}, {-1 << 32, -1 << 31, -1, 1 << 31, 1 << 32, 1<<32 + 1}, {-256, 0, 1, 255, 256, 1 << 16}, {math.MaxInt, -1, math.MinInt, 1 << 62, -1 << 62, 0}}

func (m *model) register(id, r int) {
	m.no++
	m.es = append(m.es, entry{id, r, m.no})
	sort.SliceStable(m.es, func(i, j int) bool { return m.es[i].id < m.es[j].id })
}

func (m *model) remove(drop func(entry) bool, all bool) {
	var es []entry
	n := 0
	for _, e := range m.es {
		if drop(e) {
			if n++; all || n == 1 {
				continue
			}
		}
		es = append(es, e)
	}
	m.es = es
}

func (m *model) tags(tags []string) (r []string) {
	for _, e := range m.es {
		r = append(r, tags[e.rcvr])
	}
	return
}

// change draws a change to a registry; it is applied to the registry and model when called
func change(c *vt.C, r *registry, m *model, rs []event.Receiver[string], n int, ids int) (string, func()) {
	id, k, all := c.Range(-1, ids, "id"), c.Range(0, max(0, n-1), "receiver"), c.Bool("all")
	flag := !all && c.Bool("flag")
	if m.spread != nil {
		id = m.spread[id+1]
	}
	switch op := c.Range(0, 9, "change"); {
	case op < 6:
		return fmt.Sprintf("register(%d %d)", id, k), func() { r.Register(id, rs[k]); m.register(id, k) }
	case op == 6:
		return fmt.Sprintf("removeid(%d)", id), func() {
			r.RemoveId(id)
			m.remove(func(e entry) bool { return e.id == id }, true)
		}
	default:
		return fmt.Sprintf("remove(%d %d %v)", id, k, all), func() {
			if all {
				r.Remove(id, rs[k], funcs.ALL)
			} else if flag {
				r.Remove(id, rs[k], false)
			} else {
				r.Remove(id, rs[k])
			}
			m.remove(func(e entry) bool { return e.id == id && e.rcvr == k }, all)
		}
	}
}

func TestHistories(t *testing.T) {
	vt.Check(t, 30000, "histories of up to 30 registrations and removals of receivers of equal contents and different identity or type, with events sent in between; non-trivial if at least 3 receivers are called for some event", func(c *vt.C) {
		var r registry
		var m model
		rs, tags := pool()
		desc := ""
		nt := false
		m.spread = spreads[c.Range(0, len(spreads)-1, "ids")]
		for n := c.Range(1, 30, "ops"); n > 0; n-- {
			d, f := change(c, &r, &m, rs, len(rs), 4)
			desc += " " + d
			f()
			if n > 1 && c.Range(0, 2, "send") > 0 {
				continue
			}
			trace = nil
			got := r.Send("x")
			want := m.tags(tags)
			if got != "x"+strings.Join(want, "") || fmt.Sprint(trace) != fmt.Sprint(want) {
				c.Fatalf("%s: an event gives %q, calls %v; expected calls %v", desc, got, trace, want)
			}
			nt = nt || len(want) >= 3
		}
		if nt {
			c.NonTrivial("%s", desc)
		}
	})
}

// every short history
func TestAllShort(t *testing.T) {
	rs, tags := pool()
	// one pair that is equal but not the same, a value, a function
	rs, tags = append(rs[:2:2], rs[3], rs[7]), append(tags[:2:2], tags[3], tags[7])
	vt.All(t, 2000000, "every history of up to 4 registrations and removals of one or all with 2 ids and 4 receivers, an event after each; non-trivial if 3 receivers are called for some event", func(c *vt.C) {
		var r registry
		var m model
		desc, nt := "", false
		for range 4 {
			k := c.Range(0, 26, "op") - 1
			if k < 0 {
				break
			}
			id, rcvr := k%2, k/2%4
			switch k / 8 {
			case 0:
				desc += fmt.Sprintf(" register(%d %d)", id, rcvr)
				r.Register(id, rs[rcvr])
				m.register(id, rcvr)
			case 1, 2:
				all := k/8 == 2
				desc += fmt.Sprintf(" remove(%d %d %v)", id, rcvr, all)
				if all {
					r.Remove(id, rs[rcvr], funcs.ALL)
				} else {
					r.Remove(id, rs[rcvr])
				}
				m.remove(func(e entry) bool { return e.id == id && e.rcvr == rcvr }, all)
			default:
				desc += fmt.Sprintf(" removeid(%d)", id)
				r.RemoveId(id)
				m.remove(func(e entry) bool { return e.id == id }, true)
			}
			trace = nil
			got, want := r.Send("x"), m.tags(tags)
			if got != "x"+strings.Join(want, "") || strings.Join(trace, " ") != strings.Join(want, " ") {
				c.Fatalf("%s: an event gives %q, calls %v; expected calls %v", desc, got, trace, want)
			}
			nt = nt || len(want) >= 3
		}
		if nt {
			c.NonTrivial("%s", desc)
		}
	})
}

// TestLarge: many receivers
func TestLarge(t *testing.T) {
	vt.Check(t, 400, "up to 600 receivers with up to 600 ids, most of them in order of ids or in the opposite order; events before and after some are removed or one panics; non-trivial if of more than 64 receivers", func(c *vt.C) {
		var r registry
		var m model
		n := c.SizeOr(600, 5000, "receivers")
		mul, mod := c.Range(-3, 7, "mul"), c.SizeOr(600, 5000, "ids")+1
		var rs []event.Receiver[string]
		var tags []string
		for i := range n {
			tags = append(tags, fmt.Sprint(i, " "))
			rs = append(rs, &ptr{tag: tags[i]})
			id := i * mul % mod
			r.Register(id, rs[i])
			m.register(id, i)
		}
		desc := fmt.Sprintf("%d receivers with ids i*%d%%%d", n, mul, mod)
		for k := c.Range(0, 4, "removals"); ; k-- {
			trace = nil
			want := m.tags(tags)
			if got := r.Send("x"); got != "x"+strings.Join(want, "") || fmt.Sprint(trace) != fmt.Sprint(want) {
				c.Fatalf("%s: an event gives %q; expected calls %v", desc, got, want)
			}
			if k == 0 {
				break
			}
			if n == 0 {
				break
			}
			if c.Range(0, 2, "panics") == 0 {
				// an event that ends early does not affect the next one
				self := rs[c.Range(0, n-1, "receiver")].(*ptr)
				self.do = func() {
					self.do = nil
					panic(desc)
				}
				vt.Panics(func() { r.Send("x") })
				self.do = nil
				desc += " panic of " + self.tag
				if c.Bool("only") {
					continue
				}
			}
			d, f := change(c, &r, &m, rs, n, mod)
			desc += " " + d
			f()
		}
		if n > 64 {
			c.NonTrivial("%s", desc)
		}
	})
}

// TestDuringSend: receivers that change the registry while it sends an event
func TestDuringSend(t *testing.T) {
	vt.Check(t, 20000, "receivers that register and remove receivers, themselves among them, while they process an event; non-trivial if at least 2 other receivers are to be called", func(c *vt.C) {
		var r registry
		var m model
		tags := []string{"a", "b", "c", "d", "e", "f"}
		var rs []event.Receiver[string]
		for _, s := range tags {
			rs = append(rs, &ptr{tag: s})
		}
		desc := ""
		for n := c.Range(1, 12, "before"); n > 0; n-- {
			d, f := change(c, &r, &m, rs, len(rs), 5)
			desc += " " + d
			f()
		}
		initial := append([]entry{}, m.es...)
		present := append([]entry{}, m.es...) // at any time
		kept := append([]entry{}, m.es...)    // all the time
		for _, x := range rs[:c.Range(1, 3, "active")] {
			// a receiver acts once only
			d, f := change(c, &r, &m, rs, len(rs), 5)
			self := x.(*ptr)
			desc += fmt.Sprintf(" (%s does %s)", self.tag, d)
			self.do = func() {
				self.do = nil
				f()
				var left []entry
				for _, e := range kept {
					for _, o := range m.es {
						if o == e {
							left = append(left, e)
						}
					}
				}
				kept = left
				for _, e := range m.es {
					found := false
					for _, o := range present {
						found = found || o == e
					}
					if !found {
						present = append(present, e)
					}
				}
			}
		}
		trace = nil
		got := r.Send("")
		calls := append([]string{}, trace...)
		if got != strings.Join(calls, "") {
			c.Fatalf("%s: the event gives %q, calls %v", desc, got, calls)
		}
		// those registered all the time are called in order
		i := 0
		for _, s := range calls {
			if i < len(kept) && tags[kept[i].rcvr] == s {
				i++
			}
		}
		if i < len(kept) {
			c.Fatalf("%s: calls %v; the receivers that stay registered are not all called, in order: %v", desc, calls, kept)
		}
		// no registration is called twice
		for k, tag := range tags {
			n := 0
			for _, e := range present {
				if e.rcvr == k {
					n++
				}
			}
			for _, s := range calls {
				if s == tag {
					n--
				}
			}
			if n < 0 {
				c.Fatalf("%s: calls %v; %s is called more often than it was ever registered: %v", desc, calls, tag, present)
			}
		}
		// and the next event reaches exactly what is registered then
		for _, x := range rs {
			x.(*ptr).do = nil
		}
		trace = nil
		r.Send("")
		if want := m.tags(tags); fmt.Sprint(trace) != fmt.Sprint(want) {
			c.Fatalf("%s: the next event calls %v; expected %v", desc, trace, want)
		}
		if len(kept) >= 2 && len(kept) < len(present) {
			c.NonTrivial("%s, initially %v", desc, initial)
		}
	})
}

// TestNested: receivers are senders too, and may panic
func TestNested(t *testing.T) {
	vt.Check(t, 8000, "receivers that send events to the same registry while they process one, or that panic; events follow that and further registrations; non-trivial if at least 2 receivers are called before and after an inner event", func(c *vt.C) {
		var r registry
		var m model
		tags := []string{"a", "b", "c", "d", "e"}
		var rs []event.Receiver[string]
		for _, s := range tags {
			rs = append(rs, &ptr{tag: s})
		}
		desc := ""
		register := func() {
			n := c.Range(1, 6, "registrations")
			if c.Range(0, 39, "many") == 0 {
				n = c.Range(1, 150, "registrations")
			}
			for ; n > 0; n-- {
				d, f := change(c, &r, &m, rs, len(rs), 4)
				desc += " " + d
				f()
			}
		}
		register()
		for events := c.Range(1, 3, "events"); events > 0; events-- {
			// what each receiver does, once
			plan := map[int]string{}
			for k := range rs {
				plan[k] = []string{"", "", "send", "panic"}[c.Range(0, 3, "does")]
			}
			type stop string
			for k, x := range rs {
				self := x.(*ptr)
				self.do = nil
				switch plan[k] {
				case "send":
					self.do = func() {
						self.do = nil
						r.Send("inner")
					}
				case "panic":
					self.do = func() {
						self.do = nil
						panic(stop(self.tag))
					}
				}
				if plan[k] != "" {
					desc += fmt.Sprintf(" (%s does %s)", self.tag, plan[k])
				}
			}
			// the model: the calls up to a panic
			var want []string
			left := map[int]string{}
			for k, v := range plan {
				left[k] = v
			}
			panics, sends := "", 0
			var send func(depth int) bool
			send = func(depth int) bool {
				for i, e := range m.es {
					want = append(want, tags[e.rcvr])
					do := left[e.rcvr]
					left[e.rcvr] = ""
					switch do {
					case "send":
						if i >= 1 && i < len(m.es)-1 {
							sends++
						}
						if !send(depth + 1) {
							return false
						}
					case "panic":
						panics = tags[e.rcvr]
						return false
					}
				}
				return true
			}
			send(0)
			trace = nil
			got := ""
			v, p := vt.Panics(func() { got = r.Send("x") })
			if fmt.Sprint(trace) != fmt.Sprint(want) || p != (panics != "") || p && v != stop(panics) {
				c.Fatalf("%s: an event calls %v, panics with %v; expected %v, %q", desc, trace, v, want, panics)
			}
			if w := "x" + strings.Join(m.tags(tags), ""); !p && got != w {
				c.Fatalf("%s: an event gives %q, expected %q", desc, got, w)
			}
			if sends > 0 && !p {
				c.NonTrivial("%s", desc)
			}
			register()
		}
		for _, x := range rs {
			x.(*ptr).do = nil
		}
		trace = nil
		r.Send("")
		if want := m.tags(tags); fmt.Sprint(trace) != fmt.Sprint(want) {
			c.Fatalf("%s: the next event calls %v; expected %v", desc, trace, want)
		}
	})
}

// TestTypes: other types of ids and events
func TestTypes(t *testing.T) {
	vt.Check(t, 5000, "registries with string, float and unsigned ids, some of them removed, and struct events; non-trivial if of at least 3 receivers", func(c *vt.C) {
		switch c.Range(0, 3, "type") {
		case 0, 1:
			typed(c, []string{"", "a", "b", "ab", "B", "é", strings.Repeat("a", 40), strings.Repeat("a", 40) + "b"})
		case 2:
			typed(c, []float64{math.Inf(-1), -1e300, -1.5, -1.25, 0, 0.25, 0.5, 1, math.Inf(1)})
		case 3:
			typed(c, []uint64{0, 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64})
		}
	})
}

type ev struct {
	n   int
	err error
}

func typed[I constraint.Ordered](c *vt.C, ids []I) {
	var r event.Registry[I, ev]
	if v := r.Send(ev{5, nil}); v != (ev{5, nil}) {
		c.Fatalf("no receivers: %v", v)
	}
	want := 1
	type reg struct {
		id I
		k  int
	}
	var regs []reg
	for n := c.Range(0, 8, "receivers"); n > 0; n-- {
		k := c.Range(1, 9, "k")
		id := ids[c.Range(0, len(ids)-1, "id")]
		r.Register(id, event.ReceiverFunc[ev](func(e ev) ev { return ev{e.n*3%1000 + k, e.err} }))
		regs = append(regs, reg{id, k})
	}
	if c.Range(0, 3, "remove") == 0 {
		id := ids[c.Range(0, len(ids)-1, "id")]
		r.RemoveId(id)
		var left []reg
		for _, g := range regs {
			if g.id != id {
				left = append(left, g)
			}
		}
		regs = left
	}
	sort.SliceStable(regs, func(i, j int) bool { return regs[i].id < regs[j].id })
	for _, g := range regs {
		want = want*3%1000 + g.k
	}
	if v := r.Send(ev{1, os.ErrExist}); v != (ev{want, os.ErrExist}) {
		c.Fatalf("%v: %v, expected %d", regs, v, want)
	}
	if len(regs) >= 3 {
		c.NonTrivial("%v", regs)
	}
}

// TestKnownClosures: functions are compared by their code, so another function made from the same function literal is removed
func TestKnownClosures(t *testing.T) {
	mk := func(tag string) event.Receiver[string] {
		return event.ReceiverFunc[string](func(s string) string { return s + tag })
	}
	var r registry
	a, b := mk("a"), mk("b")
	r.Register(0, a)
	r.Register(0, b)
	r.Remove(0, b)
	if got := r.Send(""); got != "a" {
		if got == "b" && strings.Contains(","+os.Getenv("VT_KNOWN")+",", ",closures,") {
			t.Log("VT-KNOWN-REPRODUCED closures")
			return
		}
		t.Errorf("of receivers a and b, b is removed, then an event calls %q", got)
	}
}
