package fcrp2pserver

import (
	"errors"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// a requester that sends its argument and takes the answer; an answer of another type is an error
func ask(r *FCRServerReader, w *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
	m := args[0].(*fcrmessages.FCRMessage)
	if err := w.Write(m, time.Second); err != nil {
		return nil, err
	}
	ans, err := r.Read(time.Second)
	if err != nil {
		return nil, err
	}
	if ans.GetMessageType() != m.GetMessageType() {
		return nil, errors.New("wrong answer")
	}
	return ans, nil
}

// echo is a peer that answers every message with the message
func echo(f []byte) ([]step, error) {
	m := parse(f)
	return []step{{data: frame(m)}}, nil
}

// trouble is a peer that answers in one of the ways that are errors
func trouble(k int) func(f []byte) ([]step, error) {
	return func(f []byte) ([]step, error) {
		switch k {
		case 0: // silence
			return []step{{err: timeoutError{}}}, nil
		case 1: // end of the stream
			return nil, nil
		case 2: // another answer
			return []step{{data: frame(fcrmessages.CreateFCRMessage(99, nil))}}, nil
		case 3: // no message
			return []step{{data: []byte{0, 0, 0, 1, 'x'}}}, nil
		case 4: // part of an answer, the rest comes late
			b := frame(parse(f))
			return []step{{data: b[:6]}, {err: timeoutError{}}, {data: b[6:]}}, nil
		}
		return nil, errors.New("broken pipe")
	}
}

const troubles = 6

// nodes 1 and 2 are gateways, 2 and 3 are providers
func client() *FCRP2PServer {
	s := NewFCRP2PServer([]string{"80"}, registered([]register.GatewayRegister{gateway(1), gateway(2)}, []register.ProviderRegister{provider(2), provider(3)}), time.Minute)
	s.AddRequester(5, ask)
	s.AddRequester(6, func(r *FCRServerReader, w *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
		m, err := ask(r, w, args[1], args[0])
		return m, err
	})
	return s
}

func ask3(s *FCRP2PServer, kind int, n *nodeid.NodeID, typ int32, args ...interface{}) (*fcrmessages.FCRMessage, error) {
	switch kind {
	case 0:
		return s.RequestGatewayFromGateway(n, typ, args...)
	case 1:
		return s.RequestGatewayFromProvider(n, typ, args...)
	}
	return s.RequestProvider(n, typ, args...)
}

func address(kind int, k byte) string {
	t := string([]byte{'0' + k})
	return []string{"gw" + t + ":1", "gw" + t + ":2", "pvd" + t + ":1"}[kind]
}

func known(kind int, k byte) bool {
	if kind == 2 {
		return k == 2 || k == 3
	}
	return k == 1 || k == 2
}

// any sequence of requests of a node as gateway, or as provider, to two nodes which answer or not
func VerifC28_request_history() {
	s := client()
	sym.Assume(s.Start() == nil)
	provider := sym.Choose("role", 2) == 1
	var peer func(f []byte) ([]step, error)
	refuse := false
	dial = func(a string) (*conn, error) {
		if refuse {
			return nil, errors.New("connection refused")
		}
		return &conn{answer: func(f []byte) ([]step, error) { return peer(f) }}, nil
	}
	type link struct {
		addr string
		c    *conn
	}
	var links []link
	what := sym.Choose("what", troubles)
	for i := 0; i < sym.Bound("requests", 3, 4); i++ {
		kind := 1
		if !provider {
			kind = 2 * sym.Choose("kind", 2)
		}
		k := byte(2 + sym.Choose("node", 2))
		typ := int32(5 + i%2)
		bad := sym.Choose("trouble", 3) // none, the peer, the connection
		peer, refuse = echo, bad == 2
		if bad == 1 {
			peer = trouble(what)
		}
		m := fcrmessages.CreateFCRMessage(int32(sym.Uint32("message type")), sym.Bytes("body", 1))
		sym.Assume(m.GetMessageType() != 99)
		args := []interface{}{m}
		if typ == 6 {
			args = []interface{}{0, m}
		}
		a := address(kind, k)
		at := -1
		for j := range links {
			if links[j].addr == a {
				at = j
			}
		}
		n := len(dialled)
		frames := 0
		if at >= 0 {
			frames = len(links[at].c.frames)
		}
		ans, err := ask3(s, kind, id(k), typ, args...)
		if !known(kind, k) {
			sym.Assert(err != nil && ans == nil, "a request to a node that is not registered is refused")
			sym.Assert(len(dialled) == n, "nothing is dialled for a node that is not registered")
			continue
		}
		if at < 0 {
			if refuse {
				sym.Assert(err != nil && ans == nil && len(dialled) == n, "a request fails if the node cannot be reached")
				continue
			}
			if len(dialled) != n+1 {
				sym.Fail("the node is dialled once when there is no connection")
				return
			}
			sym.Assert(dialled[n].addr == a, "the node is dialled at the registered address for the use")
			links = append(links, link{a, dialled[n]})
			at = len(links) - 1
		} else {
			sym.Assert(len(dialled) == n, "an open connection is used again")
		}
		c := links[at].c
		if bad == 1 {
			sym.Assert(err != nil && ans == nil, "a request that is not answered well fails")
			sym.Assert(c.closed && c.closes == 1, "the connection of a failed request is closed")
			links = append(links[:at], links[at+1:]...)
			sym.Cover("failed request")
		} else {
			sym.Assert(err == nil && same(ans, m), "a request returns the answer")
			sym.Assert(len(c.frames) == frames+1 && same(parse(c.frames[len(c.frames)-1]), m), "a request is sent once")
			sym.Assert(!c.closed, "a good connection is kept")
			sym.Cover("answered request")
		}
	}
	for _, l := range links {
		sym.Assert(!l.c.closed, "good connections are kept open")
	}
}

// requests are refused before the start and for types without requester
func VerifC28_request_refused() {
	s := client()
	dial = func(a string) (*conn, error) { return &conn{answer: echo}, nil }
	kind := sym.Choose("kind", 3)
	m := fcrmessages.CreateFCRMessage(1, nil)
	_, err := ask3(s, kind, id(2), 5, m)
	sym.Assert(err != nil && len(dialled) == 0, "a server that was not started requests nothing")
	sym.Assume(s.Start() == nil)
	s.AddRequester(8, ask)
	typ := int32(sym.Uint32("type"))
	sym.Assume(typ != 5 && typ != 6)
	_, err = ask3(s, kind, id(2), typ, m)
	sym.Assert(err != nil && len(dialled) == 0, "a type without requester is refused")
	n, err := ask3(s, kind, id(2), 5, m)
	sym.Assert(err == nil && same(n, m), "a type with requester is sent")
}

// the connection breaks at any place of the answer
func VerifC28_request_cut() {
	s := client()
	sym.Assume(s.Start() == nil)
	m := fcrmessages.CreateFCRMessage(1, []byte("{}"))
	b := frame(m)
	cut := sym.IntRange("cut", 0, len(b))
	how := sym.Choose("how", 4)
	dial = func(a string) (*conn, error) {
		return &conn{answer: func(f []byte) ([]step, error) {
			switch how {
			case 0:
				return []step{{data: b[:cut]}, {data: b[cut:]}}, nil
			case 1:
				return []step{{data: b[:cut]}, {err: timeoutError{}}, {data: b[cut:]}}, nil
			case 2:
				return []step{{data: b[:cut]}, {err: errors.New("connection reset by peer")}, {data: b[cut:]}}, nil
			}
			return []step{{data: b[:cut]}}, nil
		}}, nil
	}
	kind := sym.Choose("kind", 3)
	ans, err := ask3(s, kind, id(2), 5, m)
	if how == 0 || cut == len(b) {
		sym.Assert(err == nil && same(ans, m), "an answer in two pieces is taken")
		how = 0
	} else {
		sym.Assert(err != nil && ans == nil, "an answer that breaks off is an error")
		sym.Assert(dialled[0].closed, "the connection of a failed request is closed")
	}
	how = 0
	if len(dialled[0].steps) > 0 {
		return // cut at the end
	}
	ans, err = ask3(s, kind, id(2), 5, m)
	sym.Assert(err == nil && same(ans, m), "the next request is answered")
}

// threads ask the same or different peers; each gets its own answer
func VerifC28_request_threads() {
	s := client()
	sym.Assume(s.Start() == nil)
	dial = func(a string) (*conn, error) { return &conn{answer: echo}, nil }
	kind := sym.Choose("kind", 3)
	warm := sym.Choose("connected", 2) == 1
	if warm {
		_, err := ask3(s, kind, id(2), 5, fcrmessages.CreateFCRMessage(1, nil))
		sym.Assume(err == nil)
	}
	other := byte(2)
	if sym.Choose("other", 2) == 1 {
		other = 1 + byte(kind)/2*2
	}
	sym.Threads(sym.Bound("preemptions", 1, 2))
	sym.Race()
	to := []byte{2, other}
	var fs []func()
	for i := range to {
		k, body := to[i], []byte{byte(i)}
		fs = append(fs, func() {
			for j := 0; j < 1; j++ {
				m := fcrmessages.CreateFCRMessage(1, body)
				ans, err := ask3(s, kind, id(k), 5, m)
				sym.Assert(err == nil && same(ans, m), "every thread gets the answer to its own request")
			}
		})
	}
	sym.Par(fs...)
	want := 1
	if other != 2 {
		want = 2
	}
	open := 0
	for _, c := range dialled {
		if !c.closed {
			open++
		}
	}
	sym.Assert(open == want, "there is one connection for each peer")
}

// one thread's request fails while another one uses or waits for the same connection
func VerifC28_request_threads_fail() {
	s := client()
	sym.Assume(s.Start() == nil)
	kind := sym.Choose("kind", 3)
	dial = func(a string) (*conn, error) {
		return &conn{answer: func(f []byte) ([]step, error) {
			if m := parse(f); m.GetMessageType() == 2 {
				return []step{{err: timeoutError{}}}, nil
			}
			return echo(f)
		}}, nil
	}
	if sym.Choose("connected", 2) == 1 {
		_, err := ask3(s, kind, id(2), 5, fcrmessages.CreateFCRMessage(1, nil))
		sym.Assume(err == nil)
	}
	sym.Threads(sym.Bound("preemptions", 1, 2))
	sym.Race()
	good := fcrmessages.CreateFCRMessage(1, nil)
	sym.Par(func() {
		_, err := ask3(s, kind, id(2), 5, fcrmessages.CreateFCRMessage(2, nil))
		sym.Assert(err != nil, "a request without answer fails")
	}, func() {
		ans, err := ask3(s, kind, id(2), 5, good)
		sym.Assert(err != nil || same(ans, good), "a thread gets the answer to its own request or an error")
	})
	ans, err := ask3(s, kind, id(2), 5, good)
	sym.Assert(err == nil && same(ans, good), "the next request is answered")
	open := 0
	for _, c := range dialled {
		if !c.closed {
			open++
		}
	}
	sym.Assert(open == 1, "there is one connection left")
}
