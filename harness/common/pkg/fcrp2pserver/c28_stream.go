package fcrp2pserver

import (
	"errors"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

type handled struct {
	addr string
	typ  int32
	msg  *fcrmessages.FCRMessage
}

// a server with handlers of types 1 and 2 on port 80 and of types 2 and 3 on port 90, which record and echo
type world struct {
	s    *FCRP2PServer
	got  []handled
	fail int // the handler of the fail-th message answers with an error
}

func open() *world {
	w := &world{fail: -1}
	w.s = NewFCRP2PServer([]string{"80", "90"}, registered(nil, nil), time.Minute)
	on := func(addr string, typ int32) {
		w.s.AddHandler(addr, typ, func(r *FCRServerReader, wr *FCRServerWriter, m *fcrmessages.FCRMessage) error {
			w.got = append(w.got, handled{addr, typ, m})
			if len(w.got)-1 == w.fail {
				return errors.New("handler fails")
			}
			return wr.Write(m, time.Second)
		})
	}
	on("80", 1)
	on("80", 2)
	on("90", 2)
	on("90", 3)
	on("70", 1)
	sym.Assume(w.s.Start() == nil)
	return w
}

var ports = []string{"80", "90"}

func knows(port string, typ int32) bool {
	return port == "80" && (typ == 1 || typ == 2) || port == "90" && (typ == 2 || typ == 3)
}

// check compares what the server did with the messages
func (w *world) check(port string, c *conn, msgs []*fcrmessages.FCRMessage) {
	k := 0
	for i, m := range msgs {
		if i >= len(c.frames) {
			sym.Fail("every message is answered")
			return
		}
		ans := parse(c.frames[i])
		if knows(port, m.GetMessageType()) {
			if k >= len(w.got) {
				sym.Fail("every message is handled")
				return
			}
			sym.Assert(w.got[k].addr == port && w.got[k].typ == m.GetMessageType(), "a message goes to the handler of its address and type")
			sym.Assert(same(w.got[k].msg, m), "a message is handled as it was sent, in order")
			sym.Assert(same(ans, m), "the answer of the handler is sent as it is, in order")
			k++
		} else {
			sym.Assert(fcrmessages.DecodeInvalidMessageResponse(ans) == nil, "a message without handler is answered with an invalid message response")
		}
	}
	sym.Assert(len(w.got) == k, "no message is handled twice or at a wrong address")
	sym.Assert(len(c.frames) == len(msgs) && len(c.out) == 0, "every message has one answer")
	sym.Assert(c.closes == 1, "a connection is closed once")
}

// any messages, one after the other or all at once
func VerifC28_messages() {
	w := open()
	port := ports[sym.Choose("port", 2)]
	n := sym.Bound("messages", 2, 3)
	var msgs []*fcrmessages.FCRMessage
	c := &conn{}
	together := sym.Choose("together", 2) == 1
	var all []byte
	for i := 0; i < n; i++ {
		m := fcrmessages.CreateFCRMessage(int32(sym.Uint32("type")), sym.Bytes("body", 2))
		msgs = append(msgs, m)
		if together {
			all = append(all, frame(m)...)
		} else {
			c.steps = append(c.steps, step{data: frame(m)})
		}
	}
	if together {
		c.steps = []step{{data: all}}
	}
	connect(port, c)
	w.check(port, c, msgs)
	sym.Cover("messages")
}

func three() ([]*fcrmessages.FCRMessage, []byte, []int) {
	msgs := []*fcrmessages.FCRMessage{fcrmessages.CreateFCRMessage(1, []byte("{}")), fcrmessages.CreateFCRMessage(7, []byte("{\"a\":1}")), fcrmessages.CreateFCRMessage(2, []byte{})}
	var all []byte
	var ends []int
	for _, m := range msgs {
		all = append(all, frame(m)...)
		ends = append(ends, len(all))
	}
	return msgs, all, ends
}

// the stream of three messages is cut at any place, with or without timeouts at the cut if it is between messages
func VerifC28_cut() {
	w := open()
	msgs, all, ends := three()
	cut := sym.IntRange("cut", 0, len(all))
	quiet := sym.IntRange("timeouts", 0, 2)
	c := &conn{}
	c.steps = append(c.steps, step{data: all[:cut]})
	for i := 0; i < quiet; i++ {
		c.steps = append(c.steps, step{err: timeoutError{}})
	}
	if quiet > 0 && sym.Bool("goes on with whole messages") {
		c.steps = append(c.steps, step{data: append(append([]byte{}, frame(msgs[0])...), frame(msgs[2])...)})
		connect("80", c)
		n := 0
		for i, e := range ends {
			if cut >= e {
				n = i + 1
			}
		}
		if cut == 0 || cut == ends[0] || cut == ends[1] || cut == ends[2] {
			w.check("80", c, append(append([]*fcrmessages.FCRMessage{}, msgs[:n]...), msgs[0], msgs[2]))
		} else {
			w.check("80", c, msgs[:n])
		}
		return
	}
	c.steps = append(c.steps, step{data: all[cut:]})
	connect("80", c)
	whole := cut == 0
	n := 0
	for i, e := range ends {
		if cut >= e {
			n = i + 1
		}
		if cut == e {
			whole = true
		}
	}
	if quiet > 0 && !whole {
		// what comes after a message that stops for too long is not read
		w.check("80", c, msgs[:n])
		sym.Cover("message stops")
		return
	}
	w.check("80", c, msgs)
	sym.Cover("cut")
}

// every byte on its own, or two cuts
func VerifC28_pieces() {
	w := open()
	msgs, all, _ := three()
	c := &conn{}
	size := sym.IntRange("size", 1, sym.Bound("piece", 9, 40))
	for len(all) > size {
		c.steps = append(c.steps, step{data: all[:size]})
		all = all[size:]
	}
	c.steps = append(c.steps, step{data: all})
	connect("80", c)
	w.check("80", c, msgs)
}

// the connection ends or breaks at any place: the messages before are handled, nothing else happens
func VerifC28_end() {
	w := open()
	msgs, all, ends := three()
	cut := sym.IntRange("cut", 0, len(all))
	c := &conn{steps: []step{{data: all[:cut]}}}
	if sym.Bool("reset") {
		c.steps = append(c.steps, step{err: errors.New("connection reset by peer")}, step{data: all[cut:]})
	}
	if sym.Bool("close error") {
		c.closeErr = errors.New("close failed")
	}
	connect("80", c)
	n := 0
	for i, e := range ends {
		if cut >= e {
			n = i + 1
		}
	}
	w.check("80", c, msgs[:n])
	// the server still serves
	d := &conn{steps: []step{{data: frame(msgs[0])}}}
	w.got = nil
	connect("80", d)
	w.check("80", d, msgs[:1])
}

// a handler that fails, or bytes that are no message, end the connection, with everything behind
func VerifC28_drop() {
	w := open()
	msgs, all, _ := three()
	c := &conn{}
	switch sym.Choose("what", 3) {
	case 0:
		w.fail = sym.Choose("handler", 2)
		c.steps = []step{{data: all}}
		connect("80", c)
		sym.Assert(len(w.got) == w.fail+1, "nothing is handled after a handler failed")
		sym.Assert(len(c.frames) == 2*w.fail, "nothing is answered after a handler failed")
	case 1:
		bad := []string{"x", "{}}", "[]", "{\"message_type\":\"a\"}", "{\"message_type\":1", "\x00"}[sym.Choose("junk", 6)]
		c.steps = []step{{data: append([]byte{0, 0, 0, byte(len(bad))}, bad...)}, {data: all}}
		connect("80", c)
		sym.Assert(len(w.got) == 0 && len(c.frames) == 0, "nothing is handled after bytes that are no message")
	case 2:
		c.steps = []step{{data: append([]byte{0, 0, 0, 0}, all...)}}
		connect("80", c)
		sym.Assert(len(w.got) == 0 && len(c.frames) == 0, "nothing is handled after an empty frame")
	}
	sym.Assert(c.closes == 1, "the connection is closed once")
	// other connections are served
	w.got, w.fail = nil, -1
	d := &conn{steps: []step{{data: all}}}
	connect("80", d)
	w.check("80", d, msgs)
}

// a frame is announced with any length, and a part of it is sent
func VerifC28_length() {
	w := open()
	l := sym.Uint32("length")
	sym.Assume(l > 2048)
	c := &conn{steps: []step{{data: append([]byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}, make([]byte, 20)...)}}}
	sym.Allocates(64<<20, "the memory for a message is not taken before it arrives", func() { connect("80", c) })
	sym.Assert(len(w.got) == 0 && len(c.frames) == 0 && c.closes == 1, "a message that does not arrive is not handled")
}

// Accept fails first; two connections, to the same or to different addresses
func VerifC28_accept() {
	acceptErr = sym.Choose("errors", 3)
	w := open()
	msgs, all, _ := three()
	for i := 0; i < 2; i++ {
		p := ports[sym.Choose("port", 2)]
		w.got = nil
		c := &conn{steps: []step{{data: all}}}
		connect(p, c)
		w.check(p, c, msgs)
	}
}

// an open connection does not keep others from being served
func VerifC28_parallel() {
	w := open()
	wait := make(chan bool)
	w.s = NewFCRP2PServer([]string{"80"}, registered(nil, nil), time.Minute)
	w.s.AddHandler("80", 1, func(r *FCRServerReader, wr *FCRServerWriter, m *fcrmessages.FCRMessage) error {
		<-wait
		return wr.Write(m, time.Second)
	})
	w.s.AddHandler("80", 2, func(r *FCRServerReader, wr *FCRServerWriter, m *fcrmessages.FCRMessage) error {
		return wr.Write(m, time.Second)
	})
	sym.Assume(w.s.Start() == nil)
	slow := &conn{steps: []step{{data: frame(fcrmessages.CreateFCRMessage(1, nil))}}, done: make(chan bool)}
	listeners[":80"].next = slow
	listeners[":80"].ready <- true
	c := &conn{steps: []step{{data: frame(fcrmessages.CreateFCRMessage(2, nil))}}}
	connect("80", c)
	sym.Assert(len(c.frames) == 1, "a connection is served while another one is busy")
	wait <- true
	<-slow.done
	sym.Assert(len(slow.frames) == 1, "the busy connection is served")
}

// handlers are fixed when the server starts
func VerifC28_start() {
	s := NewFCRP2PServer([]string{"80"}, registered(nil, nil), time.Minute)
	n := 0
	h := func(r *FCRServerReader, w *FCRServerWriter, m *fcrmessages.FCRMessage) error { n++; return nil }
	sym.Assert(s.AddHandler("80", 1, h) == s, "AddHandler returns the server")
	if sym.Bool("taken") {
		noListen = ":80"
		sym.Assert(s.Start() != nil, "a server that cannot listen does not start")
		return
	}
	sym.Assert(s.Start() == nil, "a server starts")
	sym.Assert(s.Start() != nil, "a server does not start twice")
	s.AddHandler("80", 2, h)
	c := &conn{steps: []step{{data: frame(fcrmessages.CreateFCRMessage(2, nil))}}}
	connect("80", c)
	sym.Assert(n == 0 && len(c.frames) == 1, "a handler cannot be added after the start")
	c = &conn{steps: []step{{data: frame(fcrmessages.CreateFCRMessage(1, nil))}}}
	connect("80", c)
	sym.Assert(n == 1 && len(c.frames) == 0, "a handler that was added before the start is called")
}
