// Package verifrt is the harness run time. Under the symbolic executor the
// functions below are intercepted; natively they replay one concrete
// counterexample against the real code.
package verifrt

import (
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/herumi/bls-go-binary/bls"
)

type replayFile struct {
	Harness string
	Label   string
	Tier    string
	Inputs  map[string]string
	// Bytes: inputs that are not text, base64
	Bytes map[string][]byte
	// Controlled: the lock operations were rewritten, so the schedule can be followed
	Controlled bool
	Race       bool
	RSAKeys    []string
}

var rep replayFile
var labelN = map[string]int{}
var mu sync.Mutex

func label(l string) string {
	mu.Lock()
	defer mu.Unlock()
	n := labelN[l]
	labelN[l] = n + 1
	if n == 0 {
		return l
	}
	return fmt.Sprintf("%s#%d", l, n)
}

func Str(l string) string {
	l = label(l)
	if b, ok := rep.Bytes[l]; ok {
		return string(b)
	}
	return rep.Inputs[l]
}
func Int(l string, lo, hi int) int {
	n, _ := strconv.ParseInt(rep.Inputs[label(l)], 10, 64)
	if int(n) < lo || int(n) > hi {
		n = int64(lo)
	}
	return int(n)
}
func U64(l string) uint64 {
	n, _ := strconv.ParseUint(rep.Inputs[label(l)], 10, 64)
	return n
}
func Bool(l string) bool { v := rep.Inputs[label(l)]; return v == "true" || v == "1" }
func Choice(l string, n int) int {
	v, _ := strconv.Atoi(rep.Inputs[label(l)])
	if v < 0 || v >= n {
		v = 0
	}
	return v
}

var scratch string

// Dir is an empty scratch directory.
func Dir() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "verif")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}
func finish(s string, code int) {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
	fmt.Println("\nVERIF-RESULT " + s)
	os.Exit(code)
}
func Assume(b bool) {
	if !b {
		finish("ASSUME", 0)
	}
}
func Assert(b bool, l string) {
	if !b {
		finish("FAIL "+l, 0)
	}
}
func Reach(l string) {}
func Tier(q, t int) int {
	if rep.Tier == "thorough" {
		return t
	}
	return q
}

// Try reports whether f panicked.
func Try(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("recovered:", r)
			p = true
		}
	}()
	f()
	return false
}

// Deadlocks reports whether f blocks for ever.
func Deadlocks(f func()) bool {
	done := make(chan bool, 1)
	go func() { f(); done <- true }()
	for i := 0; i < 200; i++ {
		select {
		case <-done:
			return false
		default:
			realSleep()
		}
	}
	return true
}

func realSleep() {
	for i := 0; i < 20000; i++ {
		yield()
	}
}

// And / Or combine conditions without forking the symbolic execution.
func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

func RSAKey(i int) *rsa.PrivateKey {
	k := new(rsa.PrivateKey)
	if err := json.Unmarshal([]byte(rep.RSAKeys[i]), k); err != nil {
		panic(err)
	}
	k.Precompute()
	return k
}
func BLSKey(i int) *bls.SecretKey {
	bls.Init(bls.BLS12_381)
	k := new(bls.SecretKey)
	k.SetHexString(fmt.Sprintf("%x", 1000+37*i))
	return k
}

// ---- HTTP ----

type Msg struct{ Method, URL, Body string }

var sent []Msg
var onHTTP func(method, url, body string) (int, string, bool)

type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	yieldPoint()
	b := ""
	if r.Body != nil {
		d, _ := io.ReadAll(r.Body)
		b = string(d)
	}
	if !inRace {
		mu.Lock()
		sent = append(sent, Msg{r.Method, r.URL.String(), b})
		mu.Unlock()
	}
	h := onHTTP
	code, body, fail := 200, "", false
	if h != nil {
		code, body, fail = h(r.Method, r.URL.String(), b)
	}
	if fail {
		return nil, fmt.Errorf("connection refused")
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Body: &Body{Data: body}, Header: http.Header{}, Request: r}, nil
}
func NewClient() *http.Client { return &http.Client{Transport: transport{}} }
func OnHTTP(f func(method, url, body string) (int, string, bool)) {
	mu.Lock()
	onHTTP = f
	mu.Unlock()
}

// ---- servers: the code's calls of net/http are redirected here in a replay ----

var servers = map[string]http.Handler{} // by port
var pendMux = map[int64]*http.ServeMux{}

func pending() *http.ServeMux {
	mu.Lock()
	defer mu.Unlock()
	m := pendMux[goid()]
	if m == nil {
		m = http.NewServeMux()
		pendMux[goid()] = m
	}
	return m
}
func HTTPHandle(p string, h http.Handler) { pending().Handle(p, h) }
func HTTPHandleFunc(p string, h func(http.ResponseWriter, *http.Request)) {
	pending().HandleFunc(p, h)
}
func port(s string) string {
	if i := strings.LastIndexByte(s, ':'); i >= 0 {
		return s[i+1:]
	}
	return "80"
}
func HTTPListen(addr string, h http.Handler) error {
	if h == nil {
		h = pending()
	}
	mu.Lock()
	delete(pendMux, goid())
	servers[port(addr)] = h
	mu.Unlock()
	<-make(chan bool)
	return nil
}
func HTTPServe(s *http.Server) error { return HTTPListen(s.Addr, s.Handler) }

// HTTPClient has a client the code makes use the modelled network.
func HTTPClient(c *http.Client) *http.Client {
	c.Transport = transport{}
	return c
}

// Dispatch hands a request to the server it is for.
func Dispatch(method, url, body string) (int, string, bool) {
	for i := 0; i < 10; i++ {
		r, err := http.NewRequest(method, url, &Body{Data: body})
		if err != nil {
			return 0, "", true
		}
		r.ContentLength = int64(len(body))
		r.RequestURI = r.URL.RequestURI()
		r.RemoteAddr = "127.0.0.1:9"
		if !inRace { // locking would order what is not ordered
			mu.Lock()
		}
		h := servers[port(r.URL.Host)]
		if !inRace {
			mu.Unlock()
		}
		if h == nil {
			return 0, "", true
		}
		w := &RW{}
		h.ServeHTTP(w, r)
		if w.Code == 301 || w.Code == 308 || w.Code == 307 {
			u, err := r.URL.Parse(w.Header().Get("Location"))
			if err != nil {
				return 0, "", true
			}
			url = u.String()
			if w.Code == 301 && method != "GET" && method != "HEAD" {
				method, body = "GET", ""
			}
			continue
		}
		if w.Code == 0 {
			w.Code = 200
		}
		return w.Code, w.Out, false
	}
	return 0, "", true
}
func Sent() []Msg {
	mu.Lock()
	defer mu.Unlock()
	return append([]Msg(nil), sent...)
}
func ClearSent() { mu.Lock(); sent = nil; mu.Unlock() }

type Body struct{ Data string }

func (b *Body) Read(p []byte) (int, error) {
	if b.Data == "" {
		return 0, io.EOF
	}
	n := copy(p, b.Data)
	b.Data = b.Data[n:]
	return n, nil
}
func (b *Body) Close() error { return nil }

type RW struct {
	Code int
	Out  string
	H    http.Header
}

func (w *RW) Header() http.Header {
	if w.H == nil {
		w.H = make(http.Header)
	}
	return w.H
}
func (w *RW) Write(b []byte) (int, error) {
	if w.Code == 0 {
		w.Code = 200
	}
	w.Out = w.Out + string(b)
	return len(b), nil
}
func (w *RW) WriteHeader(c int) {
	if w.Code == 0 {
		w.Code = c
	}
}

// Req builds a server-side request with the given body.
func Req(body string) *http.Request {
	return &http.Request{Method: "POST", Body: &Body{Data: body}, Header: make(http.Header), RemoteAddr: "127.0.0.1:9", ContentLength: int64(len(body))}
}

// ---- clock ----

func ClockMinute(m int) {
	if m > 0 {
		time.Sleep(time.Duration(m) * time.Minute)
	}
}
func Advance(ms int) {
	synctest.Wait()
	time.Sleep(time.Duration(ms) * time.Millisecond)
	synctest.Wait()
}
func Drain() { synctest.Wait() }

// MapOrder asks for the reversed iteration order of every map (symbolic only).
func MapOrder(rev bool) {}

// Hasher stands for a hash.Hash under the symbolic executor.
type Hasher struct {
	Algo int
	Buf  string
}

func (h *Hasher) Write(p []byte) (int, error) { panic("model only") }
func (h *Hasher) Sum(b []byte) []byte         { panic("model only") }
func (h *Hasher) Reset()                      { h.Buf = "" }
func (h *Hasher) Size() int                   { return 32 }
func (h *Hasher) BlockSize() int              { return 64 }

// RunReplay is called by the generated test.
func RunReplay(t *testing.T, hs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		t.Skip("no replay file")
	}
	if err := json.Unmarshal(b, &rep); err != nil {
		t.Fatal(err)
	}
	h := hs[rep.Harness]
	if h == nil {
		finish("NOHARNESS", 0)
	}
	http.DefaultTransport = transport{}
	http.DefaultClient = NewClient()
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				finish("FAIL panic: "+strings.ReplaceAll(fmt.Sprint(r), "\n", " "), 0)
			}
		}()
		h()
		finish("PASS", 0)
	})
}

// ---- crash points ----

type crashT struct{}

var crashAt, crashN = -1, 0

// Crash runs f in a process that may end at any change f makes to a file; true if it did.
func Crash(f func()) (crashed bool) {
	n, err := strconv.Atoi(rep.Inputs[label("crash")])
	if err != nil {
		n = 63
	}
	crashAt, crashN = n, 0
	defer func() {
		crashAt = -1
		if r := recover(); r != nil {
			if _, ok := r.(crashT); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	f()
	return false
}
func crashPoint() {
	if crashAt < 0 {
		return
	}
	if crashN == crashAt {
		panic(crashT{})
	}
	crashN++
}
func OSCreate(name string) (*os.File, error) {
	crashPoint()
	f, err := os.Create(name)
	crashPoint()
	return f, err
}
func OSOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	crashPoint()
	f, err := os.OpenFile(name, flag, perm)
	crashPoint()
	return f, err
}
func OSWriteFile(name string, data []byte, perm os.FileMode) error {
	crashPoint()
	f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	defer f.Close()
	crashPoint()
	h := len(data) / 2
	if _, err = f.Write(data[:h]); err != nil {
		return err
	}
	crashPoint()
	_, err = f.Write(data[h:])
	crashPoint()
	return err
}
func OSRemove(name string) error {
	crashPoint()
	err := os.Remove(name)
	crashPoint()
	return err
}
func OSRename(a, b string) error {
	crashPoint()
	err := os.Rename(a, b)
	crashPoint()
	return err
}
