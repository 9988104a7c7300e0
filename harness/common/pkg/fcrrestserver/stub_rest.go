package fcrrestserver

import (
	"net/http"

	"github.com/ant0ine/go-json-rest/rest"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

//verif:replace FCRRESTServer.AddHandler
//verif:replace FCRRESTServer.Start

type verifRoute struct {
	address string
	msgType int32
	handler func(rw rest.ResponseWriter, request *fcrmessages.FCRMessage)
}

var verifRoutes []verifRoute

func (s *FCRRESTServer) AddHandler(listenAddr string, msgType int32, handler func(rw rest.ResponseWriter, request *fcrmessages.FCRMessage)) *FCRRESTServer {
	verifRoutes = append(verifRoutes, verifRoute{listenAddr, msgType, handler})
	return s
}

func (s *FCRRESTServer) Start() error { return nil }

// VerifAnswer is the answer to a request
type VerifAnswer struct {
	Status  int                     // 0 if there is no answer
	Message *fcrmessages.FCRMessage // nil if it is something else
	writes  int
	header  http.Header
}

func (a *VerifAnswer) Header() http.Header { return a.header }
func (a *VerifAnswer) WriteHeader(k int) {
	if a.Status == 0 {
		a.Status = k
	}
}
func (a *VerifAnswer) EncodeJson(v interface{}) ([]byte, error) { return nil, nil }
func (a *VerifAnswer) WriteJson(v interface{}) error {
	a.WriteHeader(200)
	a.writes++
	if m, ok := v.(*fcrmessages.FCRMessage); ok && m != nil {
		b, err := m.FCRMsgToBytes()
		sym.Assume(err == nil)
		a.Message, err = fcrmessages.FCRMsgFromBytes(b)
		sym.Assert(err == nil, "what is answered is a message")
		sym.Assume(err == nil)
	}
	return nil
}

// VerifPost posts the message to the address
func VerifPost(address string, m *fcrmessages.FCRMessage) *VerifAnswer {
	b, err := m.FCRMsgToBytes()
	sym.Assume(err == nil)
	m, err = fcrmessages.FCRMsgFromBytes(b)
	sym.Assume(err == nil)
	a := &VerifAnswer{header: http.Header{}}
	for _, r := range verifRoutes {
		if r.address == address && r.msgType == m.GetMessageType() {
			r.handler(a, m)
			sym.Assert(a.writes <= 1, "a request has at most one answer")
			return a
		}
	}
	a.Status = 400
	return a
}
