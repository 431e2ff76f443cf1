package main

import (
	"bytes"
	"errors"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"time"

	"encoding/hex"
)

// Fault is what the node does with one request for a block.
type Fault struct {
	Height  int64
	Attempt int    // 0 is the first
	Kind    string // "err", "500", "cut" (body ends early), "badjson", "close"
}

// Node is a fake Bitcoin Core: an http.RoundTripper.
type Node struct {
	C           *Chain
	Batch       int // headers per response at most
	Faults      map[[2]int64]string
	MaxDelay    int           // random delay of a block response, microseconds
	Hold        map[int64]int // height -> its response waits until so many further block requests have started
	mu          sync.Mutex
	rng         *rand.Rand
	attempts    map[int64]int
	started     int
	cond        *sync.Cond
	inFlight    int
	MaxInFlight int
	Served      map[int64]int
	Headers     [][2]int64 // (start height or -1, number sent)
	Tip         int        // length of the chain as the node knows it (0: all of it)
	GrowAt      int        // before answering this headers request (from 0) the chain grows to GrowTo
	GrowTo      int
	HeadFault   map[int]string // headers request -> what goes wrong
	Hit         bool           // such a request was made
}

func NewNode(c *Chain, seed int64) *Node {
	n := &Node{C: c, Batch: 2000, Faults: map[[2]int64]string{}, Hold: map[int64]int{}, rng: rand.New(rand.NewSource(seed)),
		attempts: map[int64]int{}, Served: map[int64]int{}}
	n.cond = sync.NewCond(&n.mu)
	return n
}

type cutBody struct{ r io.Reader }

func (c *cutBody) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (c *cutBody) Close() error { return nil }

type badClose struct{ io.Reader }

func (badClose) Close() error { return errors.New("close failed") }

func reply(req *http.Request, code int, body []byte) *http.Response {
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: req}
}

func (n *Node) RoundTrip(req *http.Request) (*http.Response, error) {
	p := strings.Split(strings.Trim(req.URL.Path, "/"), "/")
	last := p[len(p)-1]
	ext := last[strings.Index(last, ".")+1:]
	raw, err := hex.DecodeString(strings.TrimSuffix(last, "."+ext))
	if err != nil || len(raw) != 32 || p[0] != "rest" {
		return reply(req, 400, []byte("Invalid hash: "+last)), nil
	}
	var h Hash
	for i := range h {
		h[i] = raw[31-i]
	}
	at, ok := n.C.At[h]
	switch p[1] {
	case "headers":
		count := 0
		for _, d := range p[2] {
			count = count*10 + int(d-'0')
		}
		if count > n.Batch {
			count = n.Batch
		}
		var b []byte
		n.mu.Lock()
		tip, nth := len(n.C.Blocks), len(n.Headers)
		if n.Tip > 0 {
			if nth == n.GrowAt && n.GrowTo > n.Tip {
				n.Tip = n.GrowTo
			}
			tip = n.Tip
		}
		n.mu.Unlock()
		if ok {
			for k := at; k < tip && k < at+count; k++ {
				b = append(b, n.C.Blocks[k].header()...)
			}
		} else {
			at = -1
		}
		n.mu.Lock()
		n.Headers = append(n.Headers, [2]int64{int64(at), int64(len(b) / 80)})
		n.mu.Unlock()
		if k := n.HeadFault[nth]; k != "" {
			n.Hit = true
			return fail(req, k, b)
		}
		return reply(req, 200, b), nil // Core answers 200 with an empty list for an unknown hash
	case "block":
		if !ok {
			return reply(req, 404, []byte(last+" not found")), nil
		}
		return n.block(req, int64(at), ext)
	}
	return reply(req, 404, nil), nil
}

func (n *Node) block(req *http.Request, at int64, ext string) (*http.Response, error) {
	n.mu.Lock()
	att := n.attempts[at]
	n.attempts[at]++
	n.started++
	n.inFlight++
	if n.inFlight > n.MaxInFlight {
		n.MaxInFlight = n.inFlight
	}
	n.cond.Broadcast()
	fault := n.Faults[[2]int64{at, int64(att)}]
	if w := n.Hold[at]; w > 0 && att == 0 {
		target := n.started + w
		deadline := time.Now().Add(40 * time.Millisecond)
		tm := time.AfterFunc(40*time.Millisecond, func() { n.cond.Broadcast() })
		for n.started < target && time.Now().Before(deadline) {
			n.cond.Wait()
		}
		tm.Stop()
	}
	d := 0
	if n.MaxDelay > 0 {
		d = n.rng.Intn(n.MaxDelay)
	}
	n.Served[at]++
	n.mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
	n.mu.Lock()
	n.inFlight--
	n.mu.Unlock()
	body := n.C.Blocks[at].Bin
	if ext == "json" {
		body = n.C.Blocks[at].JSON
	}
	if fault != "" {
		return fail(req, fault, body)
	}
	return reply(req, 200, body), nil
}

func fail(req *http.Request, fault string, body []byte) (*http.Response, error) {
	switch fault {
	case "err":
		return nil, errors.New("connection refused")
	case "500":
		r := reply(req, 503, []byte("Work queue depth exceeded"))
		if len(body)%2 == 0 { // a body that looks right
			r = reply(req, 503, body)
		}
		return r, nil
	case "cut":
		r := reply(req, 200, nil)
		r.Body = &cutBody{bytes.NewReader(body[:len(body)*2/3])}
		r.ContentLength = int64(len(body))
		return r, nil
	case "short": // ends early without any sign of it
		return reply(req, 200, body[:len(body)-1-len(body)/3]), nil
	case "close":
		r := reply(req, 200, nil)
		r.Body = badClose{bytes.NewReader(body)}
		return r, nil
	}
	return reply(req, 200, body), nil
}
