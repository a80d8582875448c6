package c25

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/tls"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/rest"
	"verif/harness/vt"
)

// ==== requests and registrations

const uuid = "12345678-9ABC-def0-1234-567890abcdef"

var methods = []string{"GET", "HEAD", "PUT", "POST", "DELETE", "get", "PATCH", "OPTIONS", "G", "*", "CONNECT", "TRACE", "PROPFIND", "PROPPATCH", "M-SEARCH", "VERSION-CONTROL", "X" + strings.Repeat("Y", 300), "X" + strings.Repeat("Y", 300) + "Z"}

// patterns overlap in many ways; some are invalid
var patterns = []string{
	"^/$", "/", "^/customer$", "^/customer/" + rest.UUIDGroup + "$", "^/customer/([^/]+)$", "^/customer/([^/]*)/order/([0-9]+)$",
	"customer", "^/(a|b)?(c)?$", ".*", "^(/[a-z]+)+$", "(?i)^/CUSTOMER$", "^/order/?$", "^/é+$", "^/customer/([0-9]+)?$", "x*", "^$",
	"^/(?P<id>[0-9]+)/(?P<id2>[0-9]+)$", "^/(日|é|𝄞)+$", "^/(.)(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?$", "(?s)^(.*)$",
	"^/([^/]+)/order$", "a$", "[0-9]$", "^/" + strings.Repeat("a", 64) + "a$", "^/" + strings.Repeat("a", 64) + "b$", "^/customer/(a|b){40,}([a-z0-9]*)$", "b|" + strings.Repeat("(?:a)", 300) + "$",
	"^/(.*)/order/([0-9]+)$",
}
var invalid = []string{"(", "[", "a**", "(?P<x", "\\", "a{2,1}", ")"}

var segments = []string{"customer", "order", uuid, strings.ToUpper(uuid), uuid + "0", "a", "b", "c", "ac", "12", "7", "é", "x y", "", "CUSTOMER", "a?b", "%2F", "12345678-9ABC-def0-1234-567890abcdeg"}

func drawPath(c *vt.C) string {
	if c.Range(0, 7, "long path") == 0 {
		// what matters may come late
		s := vt.DrawStem(c.T, "stem")
		return []string{"/", "/customer/", "/customer/" + s + "/order/", ""}[c.Range(0, 3, "head")] + vt.DrawSimilar(c.T, s, "long") +
			[]string{"", "/order/12", "/customer", "/", "a", "/order", "7"}[c.Range(0, 6, "tail")]
	}
	if c.Range(0, 2, "shaped path") > 0 {
		return []string{"/", "/customer", "/customer/" + uuid, "/customer/7", "/customer/", "/customer/7/order/12", "/customer//order/1", "/a", "/c", "/ac", "/order/", "/éé", "/12/7", "", "/CUSTOMER", "/日𝄞", "/\n"}[c.Range(0, 16, "path")]
	}
	var sb strings.Builder
	for n := c.Range(0, 4, "segments"); n > 0; n-- {
		sb.WriteString("/" + segments[c.Range(0, len(segments)-1, "segment")])
	}
	return sb.String()
}

type registration struct {
	method, pattern string
	no              int
}

// lookup is the model: the first registration of the method whose pattern matches, else 405 if any pattern matches, else 404
func lookup(rs []registration, method, path string) (no, status int, parts []string) {
	status = 404
	for _, r := range rs {
		if m := regexp.MustCompile(r.pattern).FindStringSubmatch(path); m != nil {
			if r.method == method {
				return r.no, 200, m
			}
			status = 405
		}
	}
	return -1, status, nil
}

// request makes a server request for any method and path
func request(method, path string) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: "q=/customer", Fragment: "/order"}, Header: http.Header{}, Body: http.NoBody, Host: "example.com"}
}

// untouched is a body that knows whether it was read or closed
type untouched struct {
	*strings.Reader
	touched string
}

func (u *untouched) Read(p []byte) (int, error) {
	u.touched += " read"
	return u.Reader.Read(p)
}

func (u *untouched) WriteTo(w io.Writer) (int64, error) {
	u.touched += " read"
	return u.Reader.WriteTo(w)
}

func (u *untouched) Close() error {
	u.touched += " closed"
	return nil
}

// watch gives a request a body, and yields a function that tells what happened to the body and the request
func watch(c *vt.C, r *http.Request) func() string {
	b := &untouched{Reader: strings.NewReader("_method=PUT&a=b")}
	r.Body = b
	if r.ContentLength == 0 && c.Bool("length of the body") {
		r.ContentLength = int64(b.Len())
	}
	before, show := *r, func(r *http.Request) string {
		return fmt.Sprintf("%s %#v %s %v %d %v %s %v %v %v %s %s", r.Method, *r.URL, r.Proto, r.Header, r.ContentLength, r.TransferEncoding, r.Host, r.Form, r.PostForm, r.Trailer, r.RemoteAddr, r.RequestURI)
	}
	was := show(&before)
	return func() string {
		if now := show(r); now != was {
			return "the request is now " + now
		}
		if r.Body != io.ReadCloser(b) || r.MultipartForm != nil || r.Context() != before.Context() {
			return "the request has another body, form or context"
		}
		return b.touched
	}
}

// dress gives a request what it may also have, none of which matters; length is that of the body
func dress(c *vt.C, r *http.Request, length int) *http.Request {
	if c.Range(0, 2, "plain request") == 0 {
		return r
	}
	if c.Bool("content length") {
		r.ContentLength = int64(length)
	} else if length > 0 {
		r.ContentLength = -1
		r.TransferEncoding = []string{"chunked"}
	}
	if c.Range(0, 3, "any length") == 0 {
		r.ContentLength = []int64{-1, 0, 1, 1 << 10, 1<<20 + 1, 1 << 31, 1 << 32, math.MaxInt64}[c.Range(0, 7, "length")]
	}
	r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.1", 1, 1
	if c.Bool("other protocol") {
		r.Proto, r.ProtoMajor, r.ProtoMinor = []string{"HTTP/1.0", "HTTP/2.0"}[c.Range(0, 1, "protocol")], c.Range(1, 2, "major"), 0
	}
	r.Host = []string{"example.com", "", "localhost:8080", "[::1]:80"}[c.Range(0, 3, "host")]
	r.RemoteAddr = []string{"", "10.0.0.1:1234", "[::1]:5555"}[c.Range(0, 2, "remote")]
	r.Close = c.Bool("close")
	switch c.Range(0, 5, "url") {
	case 0:
		r.URL.RawPath = "/customer%2F7"
	case 1:
		r.URL.RawQuery, r.URL.ForceQuery = "", true
	case 2:
		r.URL.Scheme, r.URL.Host, r.URL.User = "https", "example.com", url.UserPassword("me", "/customer")
		r.TLS = &tls.ConnectionState{}
	case 3:
		r.URL.Opaque = "/order/"
	case 4:
		r.RequestURI = "/order/?a=b"
	}
	for n := c.Range(0, 3, "headers"); n > 0; n-- {
		kv := [][2]string{{"X-Http-Method-Override", "DELETE"}, {"X-Forwarded-Prefix", "/api"}, {"Upgrade", "websocket"}, {"Connection", "keep-alive"}, {"Expect", "100-continue"}, {"Accept", "*/*"},
			{"Range", "bytes=0-1"}, {"Content-Length", "3"}, {"If-None-Match", "*"}, {"Accept-Charset", "iso-8859-1"}, {"Content-Language", "de"}, {"X-Original-Url", "/order/"}, {"Te", "trailers"},
			{"Content-Type", "application/x-www-form-urlencoded"}, {"Content-Type", "multipart/form-data; boundary=x"}, {"Cookie", "a=b"}, {"Authorization", "Basic bWU6bWU="}}[c.Range(0, 16, "header")]
		r.Header.Add(kv[0], kv[1])
	}
	switch c.Range(0, 3, "more") {
	case 0:
		r.Form = url.Values{"_method": {"PUT"}}
		r.PostForm = r.Form
	case 1:
		r.Trailer = http.Header{"Content-Type": {"text/csv"}, "Accept-Encoding": {"gzip"}}
	case 2:
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		r = r.WithContext(ctx)
	}
	return r
}

// call is what a handler got
type call struct {
	no    int
	parts []string
	r     *http.Request
	w     http.ResponseWriter
}

// handler is a Handler by reference
type handler struct {
	no int
	f  func(no int, w http.ResponseWriter, r *http.Request, parts []string)
}

func (h *handler) Serve(w http.ResponseWriter, r *http.Request, parts []string) {
	h.f(h.no, w, r, parts)
}

// rich is a Handler that is also other things, which have no bearing on it
type rich struct{ handler }

func (h *rich) ServeHTTP(w http.ResponseWriter, r *http.Request) { http.Error(w, "not this way", 500) }
func (h *rich) ServeErr(http.ResponseWriter, *http.Request, []string) error {
	return errors.New("not this way")
}
func (h *rich) Match(*http.Request) bool                     { return false }
func (h *rich) Matches(string) bool                          { return false }
func (h *rich) Accepts(string) bool                          { return false }
func (h *rich) Allow(*http.Request) error                    { return errors.New("not allowed") }
func (h *rich) Authorize(*http.Request) bool                 { return false }
func (h *rich) Enabled() bool                                { return false }
func (h *rich) Disabled() bool                               { return true }
func (h *rich) Priority() int                                { return -h.no }
func (h *rich) Order() int                                   { return -h.no }
func (h *rich) Method() string                               { return "NONE" }
func (h *rich) Methods() []string                            { return nil }
func (h *rich) Pattern() string                              { return "none" }
func (h *rich) Path() string                                 { return "/none" }
func (h *rich) Parts(string) []string                        { return nil }
func (h *rich) IsNil() bool                                  { return true }
func (h *rich) IsZero() bool                                 { return true }
func (h *rich) Valid() bool                                  { return false }
func (h *rich) Validate() error                              { return errors.New("not valid") }
func (h *rich) Err() error                                   { return errors.New("an error") }
func (h *rich) Error() string                                { return "an error" }
func (h *rich) String() string                               { return "" }
func (h *rich) Equal(any) bool                               { return true }
func (h *rich) Unwrap() rest.Handler                         { return nil }
func (h *rich) Next() rest.Handler                           { return nil }
func (h *rich) Close() error                                 { h.no = -1; return nil }
func (h *rich) Header() http.Header                          { return http.Header{"X-No": {"rich"}} }
func (h *rich) StatusCode() int                              { return 500 }
func (h *rich) ContentType() string                          { return "text/rich" }
func (h *rich) Init() error                                  { h.no = -1; return errors.New("not at all") }
func (h *rich) Handler(*http.Request) (http.Handler, string) { return nil, "" }
func (h *rich) Handle(string, string, rest.Handler) error    { return errors.New("not this way") }

func wrap(c *vt.C, no int, f func(int, http.ResponseWriter, *http.Request, []string)) rest.Handler {
	if c.Bool("rich") {
		return &rich{handler{no, f}}
	}
	if c.Bool("handler func") {
		return rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) { f(no, w, r, parts) })
	}
	return &handler{no, f}
}

// TestHistories mixes registrations, good and bad, and requests, some of which register during the request
func TestHistories(t *testing.T) {
	vt.Check(t, 8000, "histories of registrations (valid or not, also from within a handler) and requests; non-trivial if a request is served that several patterns match, or refused for its method only", func(c *vt.C) {
		var (
			mux   rest.ServeMux
			rs    []registration
			calls []call
			next  int
			inner func()
			desc  strings.Builder
		)
		serve := func(no int, w http.ResponseWriter, r *http.Request, parts []string) {
			calls = append(calls, call{no, append([]string{}, parts...), r, w})
			clear(parts) // they are those of this request
			w.Header().Set("X-No", fmt.Sprint(no))
			w.WriteHeader(200)
			fmt.Fprintf(w, "served by %d", no)
			if inner != nil {
				f := inner
				inner = nil
				f()
			}
		}
		register := func(method, pattern string) {
			next++
			no := next
			h := wrap(c, no, serve)
			fmt.Fprintf(&desc, "handle(%s %s) ", method, pattern)
			if c.Bool("must") {
				if e, p := vt.Panics(func() { mux.MustHandle(method, pattern, h) }); p {
					c.Fatalf("%s: panics: %v", desc.String(), e)
				}
			} else if err := mux.Handle(method, pattern, h); err != nil {
				c.Fatalf("%s: error %v", desc.String(), err)
			}
			rs = append(rs, registration{method, pattern, no})
		}
		drawMethod := func() string {
			return methods[c.Range(0, []int{1, len(methods) - 1}[c.Range(0, 1, "methods")], "method")]
		}
		drawPattern := func() string {
			if c.Range(0, 2, "literal") == 0 {
				return "^" + regexp.QuoteMeta(drawPath(c)) + "$"
			}
			return patterns[c.Range(0, len(patterns)-1, "pattern")]
		}

		interesting := false
		for n := c.Range(1, 12, "steps"); n > 0; n-- {
			switch op := c.Range(0, 9, "op"); {
			case op < 4:
				register(drawMethod(), drawPattern())
			case op == 4: // invalid registrations have no effect
				method, pattern, h := drawMethod(), drawPattern(), rest.Handler(rest.HandlerFunc(func(http.ResponseWriter, *http.Request, []string) {
					c.Fatalf("%s: a handler is called that was refused", desc.String())
				}))
				var what string
				switch c.Range(0, 3, "invalid") {
				case 0:
					method, what = "", "method"
				case 1:
					pattern, what = "", "pattern"
				case 2:
					h, what = nil, "handler"
				default:
					pattern, what = invalid[c.Range(0, len(invalid)-1, "invalid pattern")], "regexp"
				}
				fmt.Fprintf(&desc, "invalid %s (%q %q) ", what, method, pattern)
				if c.Bool("must") {
					if e, p := vt.Panics(func() { mux.MustHandle(method, pattern, h) }); !p {
						c.Fatalf("%s: no panic", desc.String())
					} else if _, is := e.(error); !is {
						c.Fatalf("%s: panics with %v, not an error", desc.String(), e)
					}
				} else if err := mux.Handle(method, pattern, h); err == nil {
					c.Fatalf("%s: no error", desc.String())
				}
			default:
				method, path := drawMethod(), drawPath(c)
				// what the handler does besides
				var innerPanic any
				var within bool
				switch c.Range(0, 7, "in handler") {
				case 0, 1:
					extra := registration{drawMethod(), drawPattern(), 0}
					inner = func() { register(extra.method, extra.pattern) }
				case 2:
					inner = func() { innerPanic = http.ErrAbortHandler; panic(innerPanic) }
				case 3: // forwards to another path
					method2, path2 := drawMethod(), drawPath(c)
					inner = func() {
						within = true
						outer := calls
						calls = nil
						rec, req := httptest.NewRecorder(), dress(c, request(method2, path2), 0)
						fmt.Fprintf(&desc, "(within: %s %q) ", method2, path2)
						mux.ServeHTTP(rec, req)
						no, status, parts := lookup(rs, method2, path2)
						if rec.Code != status || len(calls) != map[bool]int{true: 1}[status == 200] || status == 200 && (calls[0].no != no || !reflect.DeepEqual(calls[0].parts, parts)) {
							c.Fatalf("%s: status %d, calls %v; expected %d by handler %d with %q", desc.String(), rec.Code, calls, status, no, parts)
						}
						calls = outer
					}
				}
				no, status, parts := lookup(rs, method, path)
				matching := 0
				for _, r := range rs {
					if regexp.MustCompile(r.pattern).MatchString(path) {
						matching++
					}
				}
				fmt.Fprintf(&desc, "%s %q ", method, path)
				calls = nil
				rec, req := httptest.NewRecorder(), dress(c, request(method, path), 0)
				touched := watch(c, req)
				if v, p := vt.Panics(func() { mux.ServeHTTP(rec, req) }); p && (innerPanic == nil || v != innerPanic) || !p && innerPanic != nil {
					c.Fatalf("%s: panics with %v; the handler does with %v", desc.String(), v, innerPanic)
				}
				inner = nil
				if s := touched(); s != "" {
					c.Fatalf("%s: before any handler asks for it: %s", desc.String(), s)
				}
				if within {
					c.Class("nested")
				}
				if rec.Code != status {
					c.Fatalf("%s: status %d, expected %d", desc.String(), rec.Code, status)
				}
				c.Class("status %d", status)
				if status != 200 {
					msg := map[int]string{404: rest.NotFoundMsg, 405: rest.MethodNotAllowedMsg}[status]
					if len(calls) > 0 || strings.TrimSpace(rec.Body.String()) != msg {
						c.Fatalf("%s: %d handlers called, body %q; expected %q", desc.String(), len(calls), rec.Body, msg)
					}
					interesting = interesting || status == 405
					continue
				}
				if len(calls) != 1 || calls[0].no != no || !reflect.DeepEqual(calls[0].parts, parts) || calls[0].r != req || calls[0].w != http.ResponseWriter(rec) {
					c.Fatalf("%s: calls %v; expected only handler %d with %q", desc.String(), calls, no, parts)
				}
				if rec.Body.String() != fmt.Sprintf("served by %d", no) || rec.Header().Get("X-No") != fmt.Sprint(no) {
					c.Fatalf("%s: response %q differs from the handler's", desc.String(), rec.Body)
				}
				interesting = interesting || matching > 1
			}
		}
		if interesting {
			c.NonTrivial("%s", desc.String())
		}
	})
}

// TestLarge: many handlers
func TestLarge(t *testing.T) {
	vt.Check(t, 120, "up to 600, now and then 3000, registrations of patterns that overlap, in order or not, and requests; non-trivial if of more than 64 registrations and a request is served that several patterns match", func(c *vt.C) {
		var (
			mux  rest.ServeMux
			rs   []registration
			res  []*regexp.Regexp
			got  int
			args []string
		)
		n := c.SizeOr(600, 3000, "registrations")
		mul, mod, verbs, wide := c.Range(1, 7, "mul"), c.SizeOr(600, 3000, "paths")+1, c.Range(1, 3, "methods"), c.Range(2, 400, "wide")
		for i := range n {
			k := i * mul % mod
			pattern := fmt.Sprintf("^/item/(%d)$", k)
			switch {
			case i%wide == wide-1:
				pattern = fmt.Sprintf("^/item/([0-9]*)%d$", k%10)
			case i%5 == 1:
				pattern = fmt.Sprintf("/item/%d", k)
			}
			rs = append(rs, registration{methods[(i/2)%verbs], pattern, i})
			res = append(res, regexp.MustCompile(pattern))
			mux.MustHandle(rs[i].method, pattern, rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) { got, args = i, parts }))
		}
		desc := fmt.Sprintf("%d registrations of item i*%d%%%d, %d methods, every %dth for several", n, mul, mod, verbs, wide)
		several := false
		for k := c.Range(1, 12, "requests"); k > 0; k-- {
			method, path := methods[c.Range(0, 2, "method")], fmt.Sprintf("/item/%d", c.SizeOr(600, 3000, "item"))
			no, status, matching, parts := -1, 404, 0, []string(nil)
			for i, r := range rs {
				if m := res[i].FindStringSubmatch(path); m != nil {
					if status == 404 {
						status = 405
					}
					if r.method == method {
						if matching++; status != 200 {
							no, status, parts = i, 200, m
						}
					}
				}
			}
			got, args = -1, nil
			rec := httptest.NewRecorder()
			mux.ServeHTTP(rec, dress(c, request(method, path), 0))
			if got != no || rec.Code != status || !reflect.DeepEqual(args, parts) {
				c.Fatalf("%s: %s %s: handler %d with %q, status %d; expected %d with %q, %d", desc, method, path, got, args, rec.Code, no, parts, status)
			}
			several = several || matching > 1
		}
		if n > 64 && several {
			c.NonTrivial("%s", desc)
		}
	})
}

// TestConcurrent registers while requests are served by several threads
func TestConcurrent(t *testing.T) {
	vt.Check(t, 400, "registrations while other threads make requests, under the race detector; non-trivial if at least two registrations and four requests", func(c *vt.C) {
		var (
			mux  rest.ServeMux
			rs   []registration
			desc strings.Builder
		)
		h := func(no int, w http.ResponseWriter, r *http.Request, parts []string) {
			w.Header().Set("X-No", fmt.Sprint(no))
		}
		n, before := c.Range(1, 10, "registrations"), c.Range(0, 4, "before")
		var hs []rest.Handler
		for i := 0; i < n; i++ {
			rs = append(rs, registration{methods[c.Range(0, 2, "method")], patterns[c.Range(0, 8, "pattern")], i})
			hs = append(hs, wrap(c, i, h))
			fmt.Fprintf(&desc, "%s %s, ", rs[i].method, rs[i].pattern)
		}
		if before > n {
			before = n
		}
		type req struct{ method, path string }
		var reqs [][]req
		for i := c.Range(2, 4, "threads"); i > 0; i-- {
			var r []req
			for k := c.Range(1, 10, "requests"); k > 0; k-- {
				r = append(r, req{methods[c.Range(0, 2, "method")], drawPath(c)})
			}
			reqs = append(reqs, r)
		}
		registrars := c.Range(1, 2, "registrars")
		pause := c.Range(0, 30, "pause")

		for i := 0; i < before; i++ {
			mux.MustHandle(rs[i].method, rs[i].pattern, hs[i])
		}
		var (
			wg     sync.WaitGroup
			start  = make(chan struct{})
			begun  = int64(before) // registrations begun and done; with one registrar these bound what a request may see
			done   = int64(before)
			errs   = make(chan string, 100)
			failed = func(format string, args ...any) {
				select {
				case errs <- fmt.Sprintf(format, args...):
				default:
				}
			}
		)
		for k := 0; k < registrars; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := before + k; i < n; i += registrars {
					atomic.AddInt64(&begun, 1)
					if err := mux.Handle(rs[i].method, rs[i].pattern, hs[i]); err != nil {
						failed("error %v", err)
					}
					atomic.AddInt64(&done, 1)
					for p := 0; p < pause; p++ {
						runtime.Gosched()
					}
				}
			}()
		}
		for _, r := range reqs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, q := range r {
					lo := atomic.LoadInt64(&done)
					rec := httptest.NewRecorder()
					mux.ServeHTTP(rec, request(q.method, q.path))
					hi := atomic.LoadInt64(&begun)
					if registrars > 1 {
						continue
					}
					got := -1
					if rec.Code == 200 {
						fmt.Sscan(rec.Header().Get("X-No"), &got)
					}
					ok := false
					for m := lo; m <= hi; m++ {
						if no, status, _ := lookup(rs[:m], q.method, q.path); no == got && status == rec.Code {
							ok = true
						}
					}
					if !ok {
						failed("%s: %s %q gives %d by handler %d, with between %d and %d registrations", desc.String(), q.method, q.path, rec.Code, got, lo, hi)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		select {
		case e := <-errs:
			c.Fatalf("%s", e)
		default:
		}
		// nothing is lost: every method and pattern is there
		for i, r := range rs {
			for _, path := range []string{"/", "/customer", "/customer/" + uuid, "/customer/7/order/12", "/a", "/customer/x"} {
				_, status, _ := lookup(rs, r.method, path)
				rec := httptest.NewRecorder()
				mux.ServeHTTP(rec, request(r.method, path))
				if rec.Code != status {
					c.Fatalf("%s: %s %s afterwards gives %d, expected %d (registration %d)", desc.String(), r.method, path, rec.Code, status, i)
				}
			}
		}
		c.Class("registrars %d", registrars)
		if n-before >= 2 && len(reqs) > 1 {
			c.NonTrivial("%s after %d: %v", desc.String(), before, reqs)
		}
	})
}

// ==== content

// oneByOne returns up to k bytes for each read
type pieces struct {
	r io.Reader
	k int
}

func (p pieces) Read(b []byte) (int, error) {
	if len(b) > p.k {
		b = b[:p.k]
	}
	return p.r.Read(b)
}

func drawBytes(c *vt.C) []byte {
	n := c.Range(0, []int{10, 300, 20000}[c.Range(0, 2, "size")], "length")
	if c.Range(0, 19, "large") == 0 {
		n = c.Size(400000, "length")
	}
	b := make([]byte, n)
	x := uint32(c.Range(0, 1<<30, "content"))
	period := c.Range(1, 50, "period")
	if c.Range(0, 3, "hardly compressible") == 0 {
		period = n
	}
	for i := range b {
		if i < period {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		} else {
			b[i] = b[i-period]
		}
	}
	return b
}

func TestGzip(t *testing.T) {
	vt.Check(t, 2500, "request bodies of any bytes, compressed at any level in one or more members or not compressed, with an Accept-Encoding header or not; non-trivial if compressed and not empty", func(c *vt.C) {
		plain := drawBytes(c)
		body := plain
		compressed := c.Bool("compressed")
		members := 1
		if compressed {
			var buf bytes.Buffer
			members = c.Range(1, 3, "members")
			level := c.Range(-2, 9, "level")
			for i := 0; i < members; i++ {
				w, _ := gzip.NewWriterLevel(&buf, level)
				w.Write(plain[len(plain)*i/members : len(plain)*(i+1)/members])
				w.Close()
			}
			body = buf.Bytes()
		}
		header := []string{"gzip", "", "deflate", "GZIP", "gzip2", "identity"}[c.Range(0, 5, "header")]
		if compressed && c.Bool("gzip") {
			header = "gzip"
		}
		r := request("POST", "/")
		if header != "" {
			r.Header.Set([]string{"Accept-Encoding", "accept-encoding", "ACCEPT-ENCODING"}[c.Range(0, 2, "case")], header)
		}
		if header != "gzip" && c.Bool("more") {
			// only the first value of a header counts
			if header == "" {
				header = "br"
				r.Header.Set("Accept-Encoding", header)
			}
			r.Header.Add("Accept-Encoding", "gzip")
		} else if header == "gzip" && c.Bool("more") {
			r.Header.Add("Accept-Encoding", "identity")
		}
		if c.Bool("other header") {
			r.Header.Set("Content-Encoding", "gzip")
		}
		r = dress(c, r, len(body))
		r.Body = io.NopCloser(pieces{bytes.NewReader(body), []int{1, 7, 1 << 20}[c.Range(0, 2, "pieces")]})
		if header == "gzip" && !compressed {
			return // no such body
		}
		want := body
		if header == "gzip" {
			want = plain
		}
		var got []byte
		var err error
		if e, p := vt.Panics(func() { got, err = io.ReadAll(rest.AcceptGzip(r)) }); p || err != nil {
			c.Fatalf("header %q, %d bytes in %d members: %v %v", header, len(plain), members, e, err)
		}
		if !bytes.Equal(got, want) {
			c.Fatalf("header %q, %d bytes in %d members: %d bytes %.40x, expected %d bytes %.40x", header, len(plain), members, len(got), got, len(want), want)
		}
		c.Class("header %s", header)
		if header == "gzip" && len(plain) > 0 {
			c.NonTrivial("%d bytes %.20x of %d members", len(plain), plain, members)
		}
	})
}

var types = []string{"text/csv", "application/json", "", "text/plain", "text/csv ", "application/json2", "text/CSV", "application", "csv"}

func TestNegotiate(t *testing.T) {
	vt.Check(t, 4000, "requests of CSV rows or JSON documents with a Content-Type of that kind, another, or none; non-trivial if of that kind and not empty", func(c *vt.C) {
		ct := types[c.Range(0, len(types)-1, "type")]
		if c.Bool("usual type") {
			ct = types[c.Range(0, 1, "type")]
		}
		var body string
		var rows [][]string
		isCSV := ct == "text/csv" || ct != "application/json" && c.Bool("csv")
		if isCSV {
			var sb strings.Builder
			w := csv.NewWriter(&sb)
			cols := c.Range(1, 4, "columns")
			many := c.Range(0, 6, "rows")
			if c.Range(0, 29, "many rows") == 0 {
				many = c.SizeOr(300, 3000, "rows")
			}
			for n := many; n > 0; n-- {
				var row []string
				if n > 10 {
					for i := 0; i < cols; i++ {
						row = append(row, fmt.Sprint("cell ", n, "-", i))
					}
					rows = append(rows, row)
					w.Write(row)
					continue
				}
				for i := 0; i < cols; i++ {
					row = append(row, []string{"a", "", "b c", "x,y", "\"q\"", "é", "line\nbreak", "1"}[c.Range(0, 7, "cell")])
				}
				if cols == 1 && row[0] == "" {
					row[0] = "-"
				}
				rows = append(rows, row)
				w.Write(row)
			}
			w.Flush()
			body = sb.String()
		} else {
			body = []string{`{"FirstName": "Jane", "age": 30}`, `[1, "two", null, [true]]`, `[]`, `{}`, `[{"a": [1.5e3, {}]}, 2]`, `{"a": {"b": "c\u00e9"}}`}[c.Range(0, 5, "document")]
			if c.Range(0, 29, "many elements") == 0 {
				body = "[" + strings.Repeat(body+" , ", c.SizeOr(300, 3000, "elements")) + body + "]"
			}
		}
		k := []int{1, 5, 1 << 20}[c.Range(0, 2, "pieces")]
		req := func() *http.Request {
			r := request("POST", "/")
			if ct != "" {
				r.Header.Set("Content-Type", ct)
			}
			if c.Bool("accept") {
				r.Header.Set("Accept", types[c.Range(0, 1, "accepted")])
			}
			r = dress(c, r, len(body))
			r.Body = io.NopCloser(pieces{strings.NewReader(body), k})
			return r
		}

		r := req()
		it := rest.NegotiateCSVContent(r)
		if (it != nil) != (ct == "text/csv") {
			c.Fatalf("CSV content for type %q: %v", ct, it)
		}
		if it == nil {
			unread(c, r, body)
		} else {
			var got [][]string
			for {
				row, err := it.Next()
				if err == iter.EOI {
					break
				} else if err != nil {
					c.Fatalf("%q: %v", body, err)
				}
				got = append(got, append([]string{}, row...)) // documented to be reused
			}
			if !reflect.DeepEqual(got, rows) {
				c.Fatalf("%q: rows %q, expected %q", body, got, rows)
			}
		}

		r = req()
		jt := rest.NegotiateJSONContent(r)
		if (jt != nil) != (ct == "application/json") {
			c.Fatalf("JSON content for type %q: %v", ct, jt)
		}
		if jt == nil {
			unread(c, r, body)
		} else {
			// C13 relates Iterate to the document; here the negotiated iterator has to be that iterator
			var got, want []json.Value
			collect := func(it iter.Iter[json.Value]) (vs []json.Value) {
				for {
					v, err := it.Next()
					if err == iter.EOI {
						return
					} else if err != nil {
						c.Fatalf("%s: %v", body, err)
					}
					vs = append(vs, v)
				}
			}
			got, want = collect(jt), collect(parse.Iterate(strings.NewReader(body)))
			if !reflect.DeepEqual(got, want) {
				c.Fatalf("%s: %v, expected %v", body, got, want)
			}
		}
		c.Class("type %s", ct)
		if ct == "text/csv" && len(rows) > 0 || ct == "application/json" {
			c.NonTrivial("%s %q", ct, body)
		}
	})
}

// unread means the body is still whole, for another reader of it
func unread(c *vt.C, r *http.Request, body string) {
	if b, err := io.ReadAll(r.Body); err != nil || string(b) != body {
		c.Fatalf("body %q is left as %q, %v", body, b, err)
	}
}
