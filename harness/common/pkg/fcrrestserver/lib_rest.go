package fcrrestserver

import (
	"bytes"
	"io"
	"net/http"
	"net/url"

	"github.com/ant0ine/go-json-rest/rest"

	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

//verif:fresh
//verif:body net/http
//verif:redirect github.com/ant0ine/go-json-rest/rest.DefaultDevStack verifStack
//verif:redirect github.com/ant0ine/go-json-rest/rest.DefaultProdStack verifStack
//verif:redirect github.com/ant0ine/go-json-rest/rest.MakeRouter verifMakeRouter
//verif:redirect net/http.ListenAndServe verifListenAndServe

// logging, timing and the like are left out
var verifStack []rest.Middleware

// router compares path and method
type router []*rest.Route

func (rt router) AppFunc() rest.HandlerFunc {
	return func(w rest.ResponseWriter, r *rest.Request) {
		for _, x := range rt {
			if x.HttpMethod == r.Method && x.PathExp == r.URL.Path {
				x.Func(w, r)
				return
			}
		}
		rest.NotFound(w, r)
	}
}

func verifMakeRouter(routes ...*rest.Route) (rest.App, error) {
	if noRouter {
		return nil, io.ErrUnexpectedEOF
	}
	return router(routes), nil
}

var (
	noRouter bool
	serving  = map[string]http.Handler{}
	listened = make(chan bool)
)

func verifListenAndServe(addr string, h http.Handler) error {
	serving[addr] = h
	listened <- true
	never := make(chan bool)
	<-never
	return nil
}

type content struct {
	io.Reader
	err    error
	closed bool
}

func (c *content) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	if err == io.EOF && c.err != nil {
		err = c.err
	}
	return n, err
}
func (c *content) Close() error { c.closed = true; return nil }

type response struct {
	header http.Header
	status []int
	out    []byte
}

func (r *response) Header() http.Header { return r.header }
func (r *response) Write(b []byte) (int, error) {
	if len(r.status) == 0 {
		r.WriteHeader(200)
	}
	r.out = append(r.out, b...)
	return len(b), nil
}
func (r *response) WriteHeader(k int) { r.status = append(r.status, k) }

// post sends the body to the server that listens on the port
func post(port, path, method string, body []byte, err error) *response {
	h := serving[":"+port]
	sym.Assert(h != nil, "the server listens on each of its addresses")
	sym.Assume(h != nil)
	c := &content{Reader: bytes.NewReader(body), err: err}
	res := &response{header: http.Header{}}
	h.ServeHTTP(res, &http.Request{Method: method, URL: &url.URL{Path: path}, Host: "host", Header: http.Header{}, Body: c, ContentLength: int64(len(body)), Proto: "HTTP/1.1"})
	sym.Assert(len(res.status) == 1, "a request has one answer")
	sym.Assume(len(res.status) == 1)
	return res
}
