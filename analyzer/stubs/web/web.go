// Package web is a type-only stub of github.com/gocraft/web, which is not available offline.
package web

import "net/http"

type ResponseWriter interface {
	http.ResponseWriter
	http.Flusher
	http.Hijacker
	http.CloseNotifier
	StatusCode() int
	Written() bool
	Size() int
}

type Request struct {
	*http.Request
	PathParams map[string]string
}

func (r *Request) IsRouted() bool    { return false }
func (r *Request) RoutePath() string { return "" }

type NextMiddlewareFunc func(ResponseWriter, *Request)

type Router struct{}

func New(ctx interface{}) *Router                                  { return nil }
func NewWithPrefix(ctx interface{}, pathPrefix string) *Router     { return nil }
func (r *Router) Subrouter(ctx interface{}, prefix string) *Router { return r }
func (r *Router) Middleware(fn interface{}) *Router                { return r }
func (r *Router) Error(fn interface{}) *Router                     { return r }
func (r *Router) NotFound(fn interface{}) *Router                  { return r }
func (r *Router) Get(path string, fn interface{}) *Router          { return r }
func (r *Router) Post(path string, fn interface{}) *Router         { return r }
func (r *Router) Put(path string, fn interface{}) *Router          { return r }
func (r *Router) Delete(path string, fn interface{}) *Router       { return r }
func (r *Router) Patch(path string, fn interface{}) *Router        { return r }
func (r *Router) Head(path string, fn interface{}) *Router         { return r }
func (r *Router) Options(path string, fn interface{}) *Router      { return r }
func (r *Router) ServeHTTP(rw http.ResponseWriter, req *http.Request) {}
