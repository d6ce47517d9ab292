// Package mux stands in for github.com/gorilla/mux, which is not installed here: the calls that the HTTP plugin's
// generated servers make, with the behaviour that they rely on (exact paths, first match, 404 otherwise).
package mux

import "net/http"

type Router struct{ routes []*Route }

type Route struct {
	path string
	h    http.Handler
}

func NewRouter() *Router { return &Router{} }

func (r *Router) Path(tpl string) *Route {
	t := &Route{path: tpl}
	r.routes = append(r.routes, t)
	return t
}

func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Path(path).HandlerFunc(f)
}

func (t *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	t.h = http.HandlerFunc(f)
	return t
}

func (t *Route) Handler(h http.Handler) *Route {
	t.h = h
	return t
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	for _, t := range r.routes {
		if t.path == req.URL.Path && t.h != nil {
			t.h.ServeHTTP(w, req)
			return
		}
	}
	http.NotFound(w, req)
}
