// C17: a request goes to the first handler that matches, or gets the right error
package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"regexp"
	"strings"

	"github.com/bantling/micro/rest"
	"verifmc/mc"
)

type reg struct {
	method, pattern string
	rx              *regexp.Regexp
	id              int
}

type call struct {
	id    int
	parts []string
}

var (
	methods  = []string{"GET", "POST", "get"}
	patterns = []string{"/a", "^/a$", "^/a/([^/]+)$", "^/(.*)$", "/([a-z]+)/([0-9]+)?", "b|^$"}
	paths    = []string{"/", "/a", "/a/b", "/b", "/a/", "/xa/5", "", "/a/ü %2F", "/a\n"}
	requests = []string{"GET", "POST", "get", "HEAD", ""}
)

// world is a mux and its model
type world struct {
	c     *mc.C
	mux   rest.ServeMux
	regs  []reg
	next  int
	calls []call
	w     http.ResponseWriter
	r     *http.Request
	act   func()
	extra bool // requests have more than a path
}

type handler struct {
	w  *world
	id int
}

func (h *handler) Serve(w http.ResponseWriter, r *http.Request, parts []string) {
	h.w.serve(h.id, w, r, parts)
}

func (x *world) serve(id int, w http.ResponseWriter, r *http.Request, parts []string) {
	x.calls = append(x.calls, call{id, append([]string{}, parts...)})
	x.c.Check(w == x.w && r == x.r, "arguments", "handler %d gets another writer or request", id)
	w.Header().Set("X-Id", fmt.Sprint(id))
	w.WriteHeader(200 + id%300)
	fmt.Fprintf(w, "body %d", id)
	if x.act != nil {
		a := x.act
		x.act = nil
		a()
	}
}

func (x *world) handlerOf(id int) rest.Handler {
	if id%2 == 0 {
		return &handler{x, id}
	}
	return rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) { x.serve(id, w, r, parts) })
}

func (x *world) register(method, pattern string, must bool) {
	id := x.next
	x.next++
	x.c.Op("Handle(%s, %s) as %d", method, pattern, id)
	if must {
		p := mc.Try(func() { x.mux.MustHandle(method, pattern, x.handlerOf(id)) })
		x.c.Check(p == nil, "refused", "MustHandle(%q, %q) panics with %v", method, pattern, p)
	} else {
		err := x.mux.Handle(method, pattern, x.handlerOf(id))
		x.c.Check(err == nil, "refused", "Handle(%q, %q) = %v", method, pattern, err)
	}
	x.regs = append(x.regs, reg{method, pattern, regexp.MustCompile(pattern), id})
}

var invalid = []reg{{method: "", pattern: "/a"}, {method: "GET", pattern: ""}, {method: "GET", pattern: "("}, {method: "GET", pattern: "/a", id: -1}, {method: "", pattern: ""}, {method: "POST", pattern: "[z-a]"}}

func (x *world) registerInvalid(k int) {
	v := invalid[k]
	var h rest.Handler
	if v.id == 0 {
		h = x.handlerOf(-1)
	}
	x.c.Op("Handle(%q, %q, handler %v)", v.method, v.pattern, h != nil)
	err := x.mux.Handle(v.method, v.pattern, h)
	x.c.Check(err != nil, "accepted", "Handle(%q, %q, handler %v) is accepted", v.method, v.pattern, h != nil)
	p := mc.Try(func() { x.mux.MustHandle(v.method, v.pattern, h) })
	x.c.Check(p != nil, "accepted", "MustHandle(%q, %q, handler %v) is accepted", v.method, v.pattern, h != nil)
}

func (x *world) request(method, path string) {
	regs := x.regs
	var want *call
	status, urlMatch := 404, false
	for _, r := range regs {
		if parts := r.rx.FindStringSubmatch(path); parts != nil {
			urlMatch = true
			if r.method == method {
				want = &call{r.id, parts}
				break
			}
		}
	}
	if want == nil && urlMatch {
		status = 405
	}
	x.calls = nil
	rec := httptest.NewRecorder()
	req := &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}}
	if x.extra {
		req.URL = &url.URL{Scheme: "http", Opaque: "//a/b", Host: "a", User: url.User("a"), Path: path, RawPath: "/a", RawQuery: "a=/a", Fragment: "/a"}
		req.RequestURI, req.Host = "/a", "a"
		req.Header.Set("X-HTTP-Method-Override", "POST")
	}
	x.w, x.r = rec, req
	x.c.Ops(1)
	var h http.Handler = &x.mux
	h.ServeHTTP(rec, req)
	body := rec.Body.String()
	got := fmt.Sprintf("calls %v, status %d", x.calls, rec.Code)
	if want == nil {
		msg := rest.NotFoundMsg
		if status == 405 {
			msg = rest.MethodNotAllowedMsg
		}
		x.c.Check(len(x.calls) == 0 && rec.Code == status, "error", "%s %q with %v: %s, expected status %d", method, path, x.list(regs), got, status)
		x.c.Check(strings.TrimSpace(body) == msg, "message", "%s %q with %v: body %q", method, path, x.list(regs), body)
	} else {
		x.c.Check(len(x.calls) == 1 && reflect.DeepEqual(x.calls[0], *want), "dispatch", "%s %q with %v: %s, expected %v", method, path, x.list(regs), got, *want)
		x.c.Check(rec.Code == 200+want.id%300 && body == fmt.Sprint("body ", want.id), "response", "%s %q with %v: status %d, body %q", method, path, x.list(regs), rec.Code, body)
	}
	x.c.Outcome(got)
}

func (x *world) list(regs []reg) (l []string) {
	for _, r := range regs {
		l = append(l, fmt.Sprintf("%d: %s %s", r.id, r.method, r.pattern))
	}
	return
}

func (x *world) all() {
	x.c.State(fmt.Sprint(x.list(x.regs)))
	for _, m := range requests {
		for _, p := range paths {
			x.request(m, p)
		}
	}
}

func main() {
	mc.Main("C17", "model_checking", []string{
		"Go's regexp package decides what matches",
		"that concurrent registration and serving share nothing unsynchronized is checked by a happens-before race detector on free runs",
	}, func(r *mc.Run) {
		d := r.Budget(3, 4)
		r.Explore("histories", fmt.Sprintf("all histories of up to %d registrations of %d methods x %d patterns, and %d invalid ones; after each %d methods x %d paths are requested", d, len(methods), len(patterns), len(invalid), len(requests), len(paths)), -1, func(c *mc.C) {
			x := &world{c: c}
			n := c.Choose(d + 1)
			for i := 0; i < n; i++ {
				k := c.Choose(len(methods)*len(patterns) + len(invalid))
				if k < len(invalid) {
					x.registerInvalid(k)
				} else {
					k -= len(invalid)
					x.register(methods[k%len(methods)], patterns[k/len(methods)], i%2 == 1)
				}
				if i == 0 {
					x.request("GET", "/a")
				}
			}
			x.all()
		})
		n := r.Budget(40, 200)
		r.Explore("many", fmt.Sprintf("up to %d registrations of the same pattern or all different ones: the first that matches serves", n), -1, func(c *mc.C) {
			x := &world{c: c}
			k := c.Choose(n)
			same := c.Bool()
			for i := 0; i < k; i++ {
				p := "^/a$"
				if !same {
					p = fmt.Sprintf("^/a/%d", i)
				}
				x.register("GET", p, false)
			}
			x.request("GET", "/a")
			for i := 0; i < k; i++ {
				x.request("GET", fmt.Sprintf("/a/%d", i))
				x.request("PUT", fmt.Sprintf("/a/%d", i))
			}
		})
		long := r.Budget(1024, 16384)
		r.Explore("long", fmt.Sprintf("handlers, captured parts and paths of all lengths up to 66 and around powers of two up to %d", long), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(long))
			x := &world{c: c}
			switch c.Choose(3) {
			case 0:
				if n > 1025 {
					c.Prune()
				}
				for i := 0; i < n; i++ {
					x.register([]string{"GET", "PUT"}[i%2], fmt.Sprintf("^/a/%d$", i/2), false)
				}
				for _, i := range []int{0, 1, n/2 - 1, n / 2, n/2 + 1} {
					x.request("GET", fmt.Sprintf("/a/%d", i))
					x.request("PUT", fmt.Sprintf("/a/%d", i))
					x.request("POST", fmt.Sprintf("/a/%d", i))
				}
			case 1:
				if n > 257 {
					c.Prune()
				}
				x.register("GET", "^"+strings.Repeat("/(a|b)", n)+"/?$", false)
				x.request("GET", strings.Repeat("/a", n))
				x.request("GET", strings.Repeat("/b/a", n/2))
				x.request("PUT", strings.Repeat("/b", n))
				x.request("GET", strings.Repeat("/b", n+1))
			case 2:
				x.register("GET", "^/("+mc.Pick(c, []string{".*", "[^/]+", "[^/]+/.+", "ü+|x"})+")$", false)
				x.register("GET", "x$", false)
				for _, s := range []string{"x", "/x", "ü", "/"} {
					x.request("GET", "/"+strings.Repeat(s, n))
					x.request("PUT", "/"+strings.Repeat(s, n)+"x")
					x.request("GET", "y/"+strings.Repeat(s, n)+"x")
				}
			}
		})
		r.Explore("during", "two registrations (valid or invalid), one of which is served; its handler registers another one, or has another request served; then all requests", -1, func(c *mc.C) {
			x := &world{c: c}
			ps := patterns[:4]
			for i := 0; i < 2; i++ {
				x.register(methods[c.Choose(2)], mc.Pick(c, ps), false)
			}
			m, p := methods[c.Choose(2)], paths[c.Choose(4)]
			what := c.Choose(3)
			m2, p2 := methods[c.Choose(2)], mc.Pick(c, ps)
			switch what {
			case 0:
				x.act = func() { x.register(m2, p2, false) }
			case 1:
				x.act = func() { x.registerInvalid(c.Choose(len(invalid))) }
			default:
				x.act = func() {
					w, r, calls := x.w, x.r, x.calls
					x.request(m2, "/a/b")
					x.w, x.r, x.calls = w, r, calls
				}
			}
			x.request(m, p)
			x.act = nil
			x.all()
		})
		verbs := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "CONNECT", "OPTIONS", "TRACE", "get", "Get", "GE", "GETS", "XGET", "G.T", "GET|PUT", ".*", "*", " GET", "GET ", "PROP", "PROPFIND", "M-SEARCH", "GÉT", "\u212aEY", "KEY"}
		r.Explore("methods", fmt.Sprintf("all pairs of %d methods of which the first, or both, are registered for a path: requests with all of them", len(verbs)), -1, func(c *mc.C) {
			x := &world{c: c}
			x.register(mc.Pick(c, verbs), "^/a$", false)
			if k := c.Choose(len(verbs) + 1); k > 0 {
				x.register(verbs[k-1], "^/a$", false)
			}
			x.register("GET", "^/b$", false)
			for _, m := range append([]string{""}, verbs...) {
				x.request(m, "/a")
				x.request(m, "/b")
				x.request(m, "/c")
			}
		})
		rxs := []string{"^/a", "(?i)^/A$", "^/(a|ab)(c|bcd)$", "^/(a+?)(a*)", "^/(a*)(b)?(c*)$", "^/(?P<x>[^/]+)/(?P<y>.*)$", "^/(?:a|b)/(c)?", "(?s)^/(.+)$", "(?m)^a$", "\\ba\\b", "a{2,3}", "^/%61$", "^//", "\\.\\.", "[?]x=1", "é", "^\\*$", "^()$", "((a)|(b))+", "\\x00", "^.", "\\p{L}\\d", "x*", "^", "$", "|a", "(x)?", "\\B", "a*$", " a", "^/a ?$ ", "^ ", "/a/ ", "\t"}
		urls := []string{"/a", "/A", "/ab", "/abcd", "/abc", "/aaa", "/b", "/b/", "/a/c", "/a/b/c", "//a", "/a//", "/../a", "/a/..", "/./a", "/%61", "/a?x=1", "/é", "/e\u0301", "*", "", "/", "a", "/\x00", "/a\nb", "\na\n", "/a;b", "/\xff", "/ü1", "/ a", "/c", "/bab"}
		r.Explore("paths", fmt.Sprintf("all pairs of %d patterns that are registered for one or two methods: requests of %d paths, which also have an encoded form, a query and a fragment that have no influence", len(rxs), len(urls)), -1, func(c *mc.C) {
			x := &world{c: c, extra: c.Bool()}
			x.register("GET", mc.Pick(c, rxs), false)
			x.register([]string{"GET", "PUT"}[c.Choose(2)], mc.Pick(c, rxs), true)
			for _, u := range urls {
				x.request("GET", u)
				x.request("PUT", u)
			}
		})
		uuid := "12345678-9aBc-dEf0-1234-567890AbcdeF"
		r.Explore("uuid", "a UUID with every one or two positions changed to 0 f G - or nothing, or one doubled: exactly the well formed ones match", -1, func(c *mc.C) {
			u := []string{}
			for _, r := range uuid {
				u = append(u, string(r))
			}
			subst := []string{"0", "f", "F", "a", "A", "9", "G", "g", "-", "", "00", "é"}
			i := c.Choose(len(u))
			j := c.Choose(len(u))
			if j < i {
				c.Prune()
			}
			u[i] = mc.Pick(c, subst)
			if j > i {
				u[j] = mc.Pick(c, subst)
			}
			s := strings.Join(u, "")
			x := &world{c: c}
			x.register("GET", "^/c/"+rest.UUIDGroup+"/x$", false)
			ok := isUUID(s)
			x.request("GET", "/c/"+s+"/x")
			c.Op("%s", s)
			c.Check(len(x.calls) == 1 == ok, "uuid", "%s matches: %v, expected %v", s, len(x.calls) == 1, ok)
			if ok {
				c.Check(len(x.calls[0].parts) == 2 && x.calls[0].parts[1] == s, "uuid", "%s: captured %q", s, x.calls[0].parts)
			}
		})
		r.Explore("panics", "a handler that panics: the panic reaches the caller, the next request is served", -1, func(c *mc.C) {
			x := &world{c: c}
			x.register("GET", "^/a$", false)
			x.act = func() { panic("handler") }
			p := mc.Try(func() { x.request("GET", "/a") })
			c.Check(p == "handler", "panic", "a panic of a handler becomes %v", p)
			x.register("POST", "/a", false)
			x.all()
		})
	})
}

func isUUID(s string) bool {
	groups := strings.Split(s, "-")
	if len(groups) != 5 {
		return false
	}
	for i, n := range []int{8, 4, 4, 4, 12} {
		if len(groups[i]) != n {
			return false
		}
		for _, r := range groups[i] {
			if !(r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F') {
				return false
			}
		}
	}
	return true
}
