package main

// regHTTP models http.Client.Do as one exchange over the client's transport: no redirects, cookies or timeouts.
func regHTTP() {
	reg("(*net/http.Client).Do", func(r *Run, fr *Frame, a []Value) Value {
		c, ok := (*r.deref(a[0])).(Struct)
		if !ok {
			r.unsupported("http client %T", *r.deref(a[0]))
		}
		t := c[0].(Iface)
		if t.T == nil {
			t, _ = r.globalVal("net/http", "DefaultTransport").(Iface)
		}
		if t.T == nil {
			r.unsupported("http request without a transport of the harness")
		}
		return r.callMethod(t, "RoundTrip", a[1])
	})
}
