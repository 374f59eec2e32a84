// Package http is a simulated HTTP client with the interface of net/http.
package http

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	rh "net/http"
	"net/url"
	"strings"
	"time"

	"github.com/grayscale-lang/grayscale/simrt/context"
	core "github.com/grayscale-lang/grayscale/simrt/core"
)

const (
	MethodGet    = "GET"
	MethodHead   = "HEAD"
	MethodPost   = "POST"
	MethodPut    = "PUT"
	MethodPatch  = "PATCH"
	MethodDelete = "DELETE"

	StatusContinue                      = rh.StatusContinue
	StatusSwitchingProtocols            = rh.StatusSwitchingProtocols
	StatusProcessing                    = rh.StatusProcessing
	StatusEarlyHints                    = rh.StatusEarlyHints
	StatusAccepted                      = rh.StatusAccepted
	StatusNonAuthoritativeInfo          = rh.StatusNonAuthoritativeInfo
	StatusResetContent                  = rh.StatusResetContent
	StatusMultiStatus                   = rh.StatusMultiStatus
	StatusAlreadyReported               = rh.StatusAlreadyReported
	StatusIMUsed                        = rh.StatusIMUsed
	StatusMultipleChoices               = rh.StatusMultipleChoices
	StatusSeeOther                      = rh.StatusSeeOther
	StatusUseProxy                      = rh.StatusUseProxy
	StatusTemporaryRedirect             = rh.StatusTemporaryRedirect
	StatusPermanentRedirect             = rh.StatusPermanentRedirect
	StatusPaymentRequired               = rh.StatusPaymentRequired
	StatusMethodNotAllowed              = rh.StatusMethodNotAllowed
	StatusNotAcceptable                 = rh.StatusNotAcceptable
	StatusProxyAuthRequired             = rh.StatusProxyAuthRequired
	StatusRequestTimeout                = rh.StatusRequestTimeout
	StatusConflict                      = rh.StatusConflict
	StatusGone                          = rh.StatusGone
	StatusLengthRequired                = rh.StatusLengthRequired
	StatusPreconditionFailed            = rh.StatusPreconditionFailed
	StatusRequestEntityTooLarge         = rh.StatusRequestEntityTooLarge
	StatusRequestURITooLong             = rh.StatusRequestURITooLong
	StatusUnsupportedMediaType          = rh.StatusUnsupportedMediaType
	StatusRequestedRangeNotSatisfiable  = rh.StatusRequestedRangeNotSatisfiable
	StatusExpectationFailed             = rh.StatusExpectationFailed
	StatusTeapot                        = rh.StatusTeapot
	StatusMisdirectedRequest            = rh.StatusMisdirectedRequest
	StatusUnprocessableEntity           = rh.StatusUnprocessableEntity
	StatusLocked                        = rh.StatusLocked
	StatusFailedDependency              = rh.StatusFailedDependency
	StatusTooEarly                      = rh.StatusTooEarly
	StatusUpgradeRequired               = rh.StatusUpgradeRequired
	StatusPreconditionRequired          = rh.StatusPreconditionRequired
	StatusRequestHeaderFieldsTooLarge   = rh.StatusRequestHeaderFieldsTooLarge
	StatusUnavailableForLegalReasons    = rh.StatusUnavailableForLegalReasons
	StatusNotImplemented                = rh.StatusNotImplemented
	StatusHTTPVersionNotSupported       = rh.StatusHTTPVersionNotSupported
	StatusVariantAlsoNegotiates         = rh.StatusVariantAlsoNegotiates
	StatusInsufficientStorage           = rh.StatusInsufficientStorage
	StatusLoopDetected                  = rh.StatusLoopDetected
	StatusNotExtended                   = rh.StatusNotExtended
	StatusNetworkAuthenticationRequired = rh.StatusNetworkAuthenticationRequired
	TimeFormat                          = rh.TimeFormat
	MethodConnect                       = rh.MethodConnect
	MethodOptions                       = rh.MethodOptions
	MethodTrace                         = rh.MethodTrace
	StatusOK                            = rh.StatusOK
	StatusCreated                       = rh.StatusCreated
	StatusNoContent                     = rh.StatusNoContent
	StatusPartialContent                = rh.StatusPartialContent
	StatusMovedPermanently              = rh.StatusMovedPermanently
	StatusFound                         = rh.StatusFound
	StatusNotModified                   = rh.StatusNotModified
	StatusBadRequest                    = rh.StatusBadRequest
	StatusUnauthorized                  = rh.StatusUnauthorized
	StatusForbidden                     = rh.StatusForbidden
	StatusNotFound                      = rh.StatusNotFound
	StatusTooManyRequests               = rh.StatusTooManyRequests
	StatusInternalServerError           = rh.StatusInternalServerError
	StatusBadGateway                    = rh.StatusBadGateway
	StatusServiceUnavailable            = rh.StatusServiceUnavailable
	StatusGatewayTimeout                = rh.StatusGatewayTimeout
)

type (
	Header = rh.Header
	Cookie = rh.Cookie
)

var (
	ErrUseLastResponse = rh.ErrUseLastResponse
	NoBody             = rh.NoBody
)

func StatusText(c int) string { return rh.StatusText(c) }

type Request struct {
	Method        string
	URL           *url.URL
	Header        Header
	Body          io.ReadCloser
	ContentLength int64
	Host          string
	Response      *Response
	ctx           context.Context
}

func (r *Request) Context() context.Context {
	if r.ctx == nil {
		return context.Background()
	}
	return r.ctx
}
func (r *Request) WithContext(c context.Context) *Request { x := *r; x.ctx = c; return &x }
func (r *Request) Clone(c context.Context) *Request {
	x := *r
	x.ctx = c
	x.Header = r.Header.Clone()
	return &x
}
func (r *Request) UserAgent() string        { return r.Header.Get("User-Agent") }
func (r *Request) SetBasicAuth(u, p string) {}

type Response struct {
	Status        string
	StatusCode    int
	Proto         string
	Header        Header
	Body          io.ReadCloser
	ContentLength int64
	Request       *Request
	Uncompressed  bool
	Close         bool
}

func (r *Response) Location() (*url.URL, error) { return r.Request.URL.Parse(r.Header.Get("Location")) }
func NewRequest(m, u string, body io.Reader) (*Request, error) {
	return NewRequestWithContext(context.Background(), m, u, body)
}
func NewRequestWithContext(ctx context.Context, m, u string, body io.Reader) (*Request, error) {
	if ctx == nil {
		return nil, errors.New("net/http: nil Context")
	}
	p, err := url.Parse(u)
	if err != nil {
		return nil, err
	}
	if m == "" {
		m = "GET"
	}
	r := &Request{Method: m, URL: p, Header: Header{}, Host: p.Host, ctx: ctx}
	if body != nil {
		r.Body = io.NopCloser(body)
	}
	return r, nil
}

type RoundTripper interface {
	RoundTrip(*Request) (*Response, error)
}
type Transport struct {
	TLSHandshakeTimeout    time.Duration
	ResponseHeaderTimeout  time.Duration
	IdleConnTimeout        time.Duration
	ExpectContinueTimeout  time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	MaxResponseHeaderBytes int64
	ForceAttemptHTTP2      bool
	Proxy                  func(*Request) (*url.URL, error)
	DialContext            any // the simulated network connects by itself
	Dial                   any
	TLSClientConfig        *tls.Config
	ReadBufferSize         int
	WriteBufferSize        int
}

func ProxyFromEnvironment(*Request) (*url.URL, error) { return nil, nil }
func (t *Transport) CloseIdleConnections()            {}
func (t *Transport) Clone() *Transport                { x := *t; return &x }
func (t *Transport) RoundTrip(r *Request) (*Response, error) {
	return roundTrip(r, -1, t)
}

var DefaultTransport RoundTripper = &Transport{}

type Client struct {
	Transport     RoundTripper
	CheckRedirect func(*Request, []*Request) error
	Timeout       time.Duration
	Jar           any
}

var DefaultClient = &Client{}

type timeoutError struct{ s string }

func (e *timeoutError) Error() string   { return e.s }
func (e *timeoutError) Timeout() bool   { return true }
func (e *timeoutError) Temporary() bool { return true }
func (e *timeoutError) Is(x error) bool { return x == context.DeadlineExceeded }

// deadline of a request: the earlier of the client's time-out and the context's
func left(r *Request, dl int64) int64 {
	d := int64(-1)
	if dl >= 0 {
		d = dl - core.Now()
		if d < 0 {
			d = 0
		}
	}
	return d
}

// wait lets d nanoseconds pass (d<0: for ever) unless the deadline or the cancellation of the context comes first.
func wait(r *Request, d, dl int64) error {
	var tm *core.Chan[struct{}]
	if d >= 0 {
		tm = core.MakeChan[struct{}](1)
		x := core.At(d, func() { tm.TrySend(struct{}{}) })
		defer x.Stop()
	}
	var to *core.Chan[struct{}]
	if l := left(r, dl); l >= 0 {
		to = core.MakeChan[struct{}](1)
		x := core.At(l, func() { to.TrySend(struct{}{}) })
		defer x.Stop()
	}
	sel := new(core.Sel)
	switch core.Select(sel, false, tm.RecvCase(), to.RecvCase(), r.Context().Done().RecvCase()) {
	case 1:
		return &timeoutError{"context deadline exceeded (Client.Timeout exceeded while awaiting headers)"}
	case 2:
		return r.Context().Err()
	}
	return nil
}
func roundTrip(r *Request, dl int64, tr *Transport) (*Response, error) {
	core.Point()
	if e := r.Context().Err(); e != nil {
		return nil, e
	}
	if r.URL.Scheme != "http" && r.URL.Scheme != "https" {
		return nil, fmt.Errorf("unsupported protocol scheme %q", r.URL.Scheme)
	}
	if r.URL.Host == "" {
		return nil, errors.New("http: no Host in request URL")
	}
	if r.Body != nil {
		io.Copy(io.Discard, r.Body)
		r.Body.Close()
	}
	x := core.NetCall(r.Method, r.URL.String(), r.Header)
	if tr != nil && tr.ResponseHeaderTimeout > 0 && (x.Delay < 0 || x.Delay > int64(tr.ResponseHeaderTimeout)) {
		if err := wait(r, int64(tr.ResponseHeaderTimeout), dl); err != nil {
			return nil, err
		}
		return nil, &timeoutError{"net/http: timeout awaiting response headers"}
	}
	if err := wait(r, x.Delay, dl); err != nil {
		return nil, err
	}
	if x.DialErr != "" {
		return nil, errors.New("dial tcp: " + x.DialErr)
	}
	h := Header{}
	for k, v := range x.Header {
		h.Set(k, v)
	}
	p := &Response{Status: fmt.Sprintf("%d %s", x.Status, StatusText(x.Status)), StatusCode: x.Status, Proto: "HTTP/1.1", Header: h, ContentLength: x.Length, Request: r}
	if x.Length >= 0 {
		h.Set("Content-Length", fmt.Sprint(x.Length))
	}
	p.Body = &body{r: r, x: x, dl: dl}
	if r.Method == "HEAD" {
		p.Body = NoBody
	}
	return p, nil
}

type body struct {
	r      *Request
	x      *core.NetResp
	dl     int64
	pos    int
	closed bool
	err    error
}

func (b *body) Close() error { b.closed = true; return nil }
func (b *body) Read(p []byte) (int, error) {
	core.SysPoint("recv")
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.err != nil {
		return 0, b.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	x := b.x
	if e := b.r.Context().Err(); e != nil {
		b.err = e
		return 0, e
	}
	d := x.ChunkDelay
	if x.StallAt >= 0 && b.pos >= x.StallAt {
		d = -1
	}
	end := len(x.Body)
	if x.CutAt >= 0 && x.CutAt < end {
		end = x.CutAt
	}
	if b.pos >= end && d >= 0 {
		if x.CutAt >= 0 && x.CutAt < len(x.Body) && !x.Clean {
			b.err = io.ErrUnexpectedEOF
		} else if x.Length >= 0 && int64(b.pos) < x.Length {
			b.err = io.ErrUnexpectedEOF
		} else {
			b.err = io.EOF
		}
		return 0, b.err
	}
	if d != 0 || b.dl >= 0 && core.Now() >= b.dl {
		if err := wait(b.r, d, b.dl); err != nil {
			if _, ok := err.(*timeoutError); ok {
				err = &timeoutError{"context deadline exceeded (Client.Timeout or context cancellation while reading body)"}
			}
			b.err = err
			return 0, err
		}
	}
	n := end - b.pos
	if x.StallAt >= 0 && b.pos+n > x.StallAt {
		n = x.StallAt - b.pos
	}
	if x.Length >= 0 && int64(b.pos+n) > x.Length {
		n = int(x.Length) - b.pos
	}
	if n <= 0 {
		b.err = io.EOF
		return 0, b.err
	}
	if x.Chunk > 0 && n > x.Chunk {
		n = x.Chunk
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, x.Body[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}
func (c *Client) uerr(r *Request, err error) error {
	m := r.Method
	return &url.Error{Op: m[:1] + strings.ToLower(m[1:]), URL: r.URL.String(), Err: err}
}
func (c *Client) Do(r *Request) (*Response, error) {
	dl := int64(-1)
	if c.Timeout > 0 {
		dl = core.Now() + int64(c.Timeout)
	}
	var via []*Request
	first := r
	for {
		var resp *Response
		var err error
		switch t := c.Transport.(type) {
		case nil:
			resp, err = roundTrip(r, dl, nil)
		case *Transport:
			resp, err = roundTrip(r, dl, t)
		default:
			resp, err = t.RoundTrip(r)
		}
		if err != nil {
			return nil, c.uerr(first, err)
		}
		switch resp.StatusCode {
		case 301, 302, 303, 307, 308:
			loc := resp.Header.Get("Location")
			if loc == "" {
				return resp, nil
			}
			u, err := r.URL.Parse(loc)
			if err != nil {
				return nil, c.uerr(first, err)
			}
			via = append(via, r)
			n := &Request{Method: r.Method, URL: u, Header: r.Header.Clone(), Host: u.Host, ctx: r.ctx, Response: resp}
			if resp.StatusCode < 307 && r.Method != "HEAD" {
				n.Method = "GET"
			}
			if c.CheckRedirect != nil {
				if err := c.CheckRedirect(n, via); err == ErrUseLastResponse {
					return resp, nil
				} else if err != nil {
					return resp, c.uerr(first, err)
				}
			} else if len(via) >= 10 {
				return resp, c.uerr(first, errors.New("stopped after 10 redirects"))
			}
			resp.Body.Close()
			r = n
		default:
			return resp, nil
		}
	}
}
func (c *Client) Get(u string) (*Response, error) {
	r, err := NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}
func (c *Client) Head(u string) (*Response, error) {
	r, err := NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}
func (c *Client) Post(u, ct string, b io.Reader) (*Response, error) {
	r, err := NewRequest("POST", u, b)
	if err != nil {
		return nil, err
	}
	r.Header.Set("Content-Type", ct)
	return c.Do(r)
}
func (c *Client) CloseIdleConnections()                 {}
func Get(u string) (*Response, error)                   { return DefaultClient.Get(u) }
func Head(u string) (*Response, error)                  { return DefaultClient.Head(u) }
func Post(u, ct string, b io.Reader) (*Response, error) { return DefaultClient.Post(u, ct, b) }
func MaxBytesReader(w any, r io.ReadCloser, n int64) io.ReadCloser {
	return struct {
		io.Reader
		io.Closer
	}{io.LimitReader(r, n), r}
}

var _ = bytes.NewReader
