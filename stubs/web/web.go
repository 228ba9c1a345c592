// Package web is a minimal stand-in for github.com/gocraft/web (not available
// offline). It implements exactly the API surface that /repo/healthd uses, so that
// healthd can be type-checked, compiled and run by the checks in /verif. It is NOT
// the code under verification.
package web

import (
	"net/http"
	"reflect"
	"strings"
)

type ResponseWriter interface {
	http.ResponseWriter
	StatusCode() int
	Written() bool
	Size() int
}

type appResponseWriter struct {
	http.ResponseWriter
	statusCode int
	size       int
}

func (w *appResponseWriter) StatusCode() int { return w.statusCode }
func (w *appResponseWriter) Written() bool   { return w.statusCode != 0 }
func (w *appResponseWriter) Size() int       { return w.size }
func (w *appResponseWriter) WriteHeader(code int) {
	w.statusCode = code
	w.ResponseWriter.WriteHeader(code)
}
func (w *appResponseWriter) Write(b []byte) (int, error) {
	if w.statusCode == 0 {
		w.statusCode = http.StatusOK
	}
	n, err := w.ResponseWriter.Write(b)
	w.size += n
	return n, err
}

type Request struct {
	*http.Request
	PathParams map[string]string
	routePath  string
}

func (r *Request) RoutePath() string { return r.routePath }

type NextMiddlewareFunc func(ResponseWriter, *Request)

type route struct {
	path    string
	handler reflect.Value
}

type Router struct {
	ctxType    reflect.Type
	prefix     string
	parent     *Router
	children   []*Router
	middleware []reflect.Value
	routes     []route
	notFound   reflect.Value
}

func New(ctx interface{}) *Router { return &Router{ctxType: reflect.TypeOf(ctx)} }

func (r *Router) Subrouter(ctx interface{}, pathPrefix string) *Router {
	c := &Router{ctxType: reflect.TypeOf(ctx), prefix: r.prefix + pathPrefix, parent: r}
	r.children = append(r.children, c)
	return c
}

func (r *Router) Middleware(fn interface{}) *Router {
	r.middleware = append(r.middleware, reflect.ValueOf(fn))
	return r
}

func (r *Router) NotFound(fn interface{}) *Router {
	r.notFound = reflect.ValueOf(fn)
	return r
}

func (r *Router) Get(path string, fn interface{}) *Router {
	r.routes = append(r.routes, route{r.prefix + path, reflect.ValueOf(fn)})
	return r
}

func (r *Router) find(path string) (*Router, *route) {
	for i := range r.routes {
		if r.routes[i].path == path {
			return r, &r.routes[i]
		}
	}
	for _, c := range r.children {
		if rr, rt := c.find(path); rt != nil {
			return rr, rt
		}
	}
	return nil, nil
}

func call(fn reflect.Value, ctx reflect.Value, args ...interface{}) {
	var in []reflect.Value
	if fn.Type().NumIn() == len(args)+1 {
		in = append(in, ctx)
	}
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	fn.Call(in)
}

func (r *Router) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	w := &appResponseWriter{ResponseWriter: rw}
	q := &Request{Request: req}
	var rr *Router
	var rt *route
	if req.Method == "GET" || req.Method == "HEAD" {
		rr, rt = r.find(strings.TrimSuffix(req.URL.Path, "/"))
	}
	if rt == nil {
		if r.notFound.IsValid() {
			call(r.notFound, reflect.Value{}, ResponseWriter(w), q)
			return
		}
		w.WriteHeader(404)
		return
	}
	q.routePath = rt.path
	ctx := reflect.New(rr.ctxType)
	var run func(i int) NextMiddlewareFunc
	run = func(i int) NextMiddlewareFunc {
		return func(rw2 ResponseWriter, req2 *Request) {
			if i < len(rr.middleware) {
				call(rr.middleware[i], ctx, rw2, req2, run(i+1))
				return
			}
			call(rt.handler, ctx, rw2, req2)
		}
	}
	run(0)(w, q)
}
