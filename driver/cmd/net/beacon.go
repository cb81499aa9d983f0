package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strconv"
	"strings"
	"sync"

	"github.com/brevis-network/zk-utils/common/eth"

	. "verifdriver/h"
)

type rt func(q *http.Request) (*http.Response, error)

func (f rt) RoundTrip(q *http.Request) (*http.Response, error) { return f(q) }

var netLock sync.Mutex

// with runs f with every request of the default transport answered by t
func with(t rt, f func()) {
	netLock.Lock()
	defer netLock.Unlock()
	old := http.DefaultTransport
	http.DefaultTransport = t
	defer func() { http.DefaultTransport = old }()
	f()
}

func answer(q *http.Request, status int, body string) *http.Response {
	return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d x", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: q}
}

type bscen struct {
	Op    string `json:"op"`
	Chain uint64 `json:"chain"`
	Net   string `json:"net"`
	Data  string `json:"data"`
	Pos   string `json:"pos"`
	Fin   bool   `json:"fin"`
}

// body is the text of an answer of the given shape
func (s bscen) body(rnd *rand.Rand, n uint64) string {
	noise := func(m map[string]interface{}) map[string]interface{} {
		for _, k := range []string{"blockHash", "gasUsed", "epoch", "relay"} {
			if rnd.Intn(2) == 0 {
				m[k] = []interface{}{1, "0x12", nil, map[string]interface{}{"slot": 5, "finalized": true}}[rnd.Intn(4)]
			}
		}
		return m
	}
	var item interface{}
	if s.Op == "slot" {
		m := map[string]interface{}{}
		switch s.Pos {
		case "there":
			m["posConsensus"] = noise(map[string]interface{}{"slot": n, "finalized": s.Fin, "proposerIndex": rnd.Intn(1000)})
		case "null":
			m["posConsensus"] = nil
		case "other":
			m["posConsensus"] = "n/a"
		case "partial":
			m["posConsensus"] = map[string]interface{}{"proposerIndex": 3}
		}
		item = noise(m)
	} else {
		m := map[string]interface{}{"slot": rnd.Intn(1000)}
		switch s.Pos {
		case "there":
			m["exec_block_number"] = n
		case "null":
			m["exec_block_number"] = nil
		case "other", "partial":
			m["exec_block_number"] = "n/a"
		}
		item = noise(m)
	}
	top := map[string]interface{}{"status": "OK"}
	switch s.Data {
	case "there":
		if s.Op == "slot" {
			item = []interface{}{item}
		}
		top["data"] = item
	case "more": // what follows the first item does not count
		top["data"] = []interface{}{item, map[string]interface{}{"posConsensus": map[string]interface{}{"slot": n + 1, "finalized": !s.Fin}}}
	case "empty":
		top["data"] = []interface{}{}
	case "null":
		top["data"] = nil
	case "other":
		top["data"] = "ERROR: not found"
	case "text":
		return "<html>busy</html>"
	}
	b, err := json.Marshal(top)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func c37(c *Ctx) {
	for i, raw := range c.Scen {
		var s bscen
		if err := json.Unmarshal(raw, &s); err != nil {
			panic(err)
		}
		for k := 0; k < c.N(1, 8); k++ {
			c.Add("beacon", fmt.Sprintf("%s-%d-%s-%s-%s-%v-%d-%d", s.Op, s.Chain, s.Net, s.Data, s.Pos, s.Fin, i, k), func(r *Rec) {
				ask := []uint64{0, 1, uint64(r.Rnd.Intn(1 << 24)), 1<<32 + uint64(r.Rnd.Intn(1000)), 18446744073709551615}[r.Rnd.Intn(5)]
				n := []uint64{0, 1, uint64(r.Rnd.Intn(1 << 24)), 1<<32 + uint64(r.Rnd.Intn(1000)), 1<<53 - 1}[r.Rnd.Intn(5)]
				body := s.body(r.Rnd, n)
				reqs := []string{}
				t := rt(func(q *http.Request) (*http.Response, error) {
					reqs = append(reqs, q.Method+" "+q.URL.String())
					switch s.Net {
					case "ok":
						return answer(q, 200, body), nil
					case "down":
						return nil, errors.New("no route")
					case "cut":
						a := answer(q, 200, "")
						a.Body = io.NopCloser(io.MultiReader(strings.NewReader(body[:len(body)/2]), brokenReader{}))
						return a, nil
					}
					st, _ := strconv.Atoi(s.Net)
					return answer(q, st, body), nil
				})
				e := Ev{"op": s.Op, "chain": s.Chain, "ask": fmt.Sprint(ask), "net": s.Net, "data": s.Data, "pos": s.Pos, "n": fmt.Sprint(n), "fin": B(s.Fin)}
				with(t, func() {
					cl := &eth.Client{ChainId: s.Chain}
					var out uint64
					var fin bool
					res, msg := Try(func() error {
						if s.Op == "slot" {
							out, fin = cl.GetSlot(ask)
						} else {
							out = cl.GetBlock(ask)
						}
						return nil
					})
					e["res"], e["out"], e["outFin"] = res, fmt.Sprint(out), B(fin)
					if res != "ok" {
						e["msg"] = msg
					}
				})
				e["reqs"] = reqs
				r.Add(e)
			})
		}
	}
}

type brokenReader struct{}

func (brokenReader) Read([]byte) (int, error) { return 0, errors.New("connection reset") }
