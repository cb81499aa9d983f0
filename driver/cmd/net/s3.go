package main

import (
	"bytes"
	"crypto/md5"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/brevis-network/zk-utils/common/s3api"

	. "verifdriver/h"
)

// fake is one bucket of an object store
type fake struct {
	mu      sync.Mutex
	objs    map[string][]byte
	parts   map[string]map[int][]byte
	pkey    map[string]string
	page    int
	fault   string // "", "deny", "once", "cut"
	faulted bool
	seen    map[string]int
	next    int
}

type stores struct {
	mu sync.Mutex
	m  map[string]*fake
}

var all = &stores{m: map[string]*fake{}}

func (s *stores) RoundTrip(q *http.Request) (*http.Response, error) {
	host := q.URL.Host
	bucket, key := "", q.URL.Path
	if i := strings.Index(host, ".s3"); i > 0 {
		bucket = host[:i]
		key = strings.TrimPrefix(key, "/")
	} else {
		p := strings.SplitN(strings.TrimPrefix(key, "/"), "/", 2)
		bucket, key = p[0], ""
		if len(p) == 2 {
			key = p[1]
		}
	}
	s.mu.Lock()
	f := s.m[bucket]
	s.mu.Unlock()
	var body []byte
	if q.Body != nil {
		b, err := io.ReadAll(q.Body)
		q.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
	}
	if f == nil {
		return reply(q, 404, nil, errXML("NoSuchBucket")), nil
	}
	return f.serve(q, key, body)
}

func reply(q *http.Request, status int, h http.Header, body []byte) *http.Response {
	if h == nil {
		h = http.Header{}
	}
	a := &http.Response{StatusCode: status, Status: fmt.Sprintf("%d x", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: q}
	if q.Method == "HEAD" {
		a.Body = http.NoBody
	}
	h.Set("Content-Length", strconv.Itoa(len(body)))
	return a
}
func errXML(code string) []byte {
	return []byte("<?xml version=\"1.0\"?><Error><Code>" + code + "</Code><Message>" + code + "</Message></Error>")
}
func tag(b []byte) string { return fmt.Sprintf("\"%x\"", md5.Sum(b)) }
func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func (f *fake) serve(q *http.Request, key string, body []byte) (*http.Response, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	v := q.URL.Query()
	_, uploads := v["uploads"]
	id := v.Get("uploadId")
	match := 0
	for k := range f.objs {
		if strings.HasPrefix(k, v.Get("prefix")) {
			match++
		}
	}
	abort := q.Method == "DELETE" && id != ""
	if f.fault == "deny" && !abort {
		// of several requests the last kind is refused: a part, a later range or page
		late := (q.Method == "POST" && uploads) || (q.Method == "GET" && key == "" && v.Get("marker") == "" && v.Get("continuation-token") == "" && match > f.page) ||
			(q.Method == "PUT" && v.Get("partNumber") == "1")
		if !late {
			return reply(q, 403, nil, errXML("AccessDenied")), nil
		}
	}
	if f.fault == "once" && !f.faulted {
		f.faulted = true
		return reply(q, 500, nil, errXML("InternalError")), nil
	}
	switch {
	case q.Method == "PUT" && id != "":
		n, _ := strconv.Atoi(v.Get("partNumber"))
		f.parts[id][n] = body
		return reply(q, 200, http.Header{"Etag": {tag(body)}}, nil), nil
	case q.Method == "PUT":
		f.objs[key] = body
		return reply(q, 200, http.Header{"Etag": {tag(body)}}, nil), nil
	case q.Method == "POST" && uploads:
		f.next++
		id := fmt.Sprint("u", f.next)
		f.parts[id], f.pkey[id] = map[int][]byte{}, key
		return reply(q, 200, nil, []byte("<InitiateMultipartUploadResult><UploadId>"+id+"</UploadId><Key>"+esc(key)+"</Key></InitiateMultipartUploadResult>")), nil
	case q.Method == "POST" && id != "":
		var done struct {
			Part []struct {
				PartNumber int
				ETag       string
			}
		}
		if err := xml.Unmarshal(body, &done); err != nil {
			return reply(q, 400, nil, errXML("MalformedXML")), nil
		}
		var o []byte
		for i, p := range done.Part {
			if b, ok := f.parts[id][p.PartNumber]; !ok || strings.Trim(p.ETag, "\"") != strings.Trim(tag(b), "\"") || (i > 0 && p.PartNumber <= done.Part[i-1].PartNumber) {
				return reply(q, 400, nil, errXML("InvalidPart")), nil
			}
			o = append(o, f.parts[id][p.PartNumber]...)
		}
		f.objs[key] = o
		delete(f.parts, id)
		return reply(q, 200, nil, []byte("<CompleteMultipartUploadResult><Key>"+esc(key)+"</Key><ETag>x</ETag></CompleteMultipartUploadResult>")), nil
	case q.Method == "DELETE" && id != "":
		delete(f.parts, id)
		return reply(q, 204, nil, nil), nil
	case q.Method == "DELETE":
		delete(f.objs, key)
		return reply(q, 204, nil, nil), nil
	case q.Method == "GET" && key == "":
		return f.list(q, v), nil
	case q.Method == "GET" || q.Method == "HEAD":
		o, ok := f.objs[key]
		if !ok {
			return reply(q, 404, nil, errXML("NoSuchKey")), nil
		}
		h := http.Header{"Etag": {tag(o)}, "Accept-Ranges": {"bytes"}}
		status, part := 200, o
		if rg := q.Header.Get("Range"); rg != "" && q.Method == "GET" {
			var a, b int
			if n, _ := fmt.Sscanf(rg, "bytes=%d-%d", &a, &b); n < 2 {
				b = len(o) - 1
			}
			if a >= len(o) {
				return reply(q, 416, nil, errXML("InvalidRange")), nil
			}
			if b >= len(o) {
				b = len(o) - 1
			}
			part = o[a : b+1]
			status = 206
			h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", a, b, len(o)))
		}
		a := reply(q, status, h, part)
		if f.fault == "cut" && q.Method == "GET" {
			a.Body = io.NopCloser(io.MultiReader(bytes.NewReader(part[:len(part)/2]), brokenReader{}))
		}
		return a, nil
	}
	return reply(q, 405, nil, errXML("MethodNotAllowed")), nil
}

func (f *fake) list(q *http.Request, v url.Values) *http.Response {
	var ks []string
	after := v.Get("marker")
	v2 := v.Get("list-type") == "2"
	if v2 {
		after = v.Get("start-after")
		if t := v.Get("continuation-token"); t != "" {
			after = strings.TrimPrefix(t, "t:")
		}
	}
	for k := range f.objs {
		if strings.HasPrefix(k, v.Get("prefix")) && k > after {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	max := f.page
	if n, err := strconv.Atoi(v.Get("max-keys")); err == nil && n < max {
		max = n
	}
	trunc := len(ks) > max
	if trunc {
		ks = ks[:max]
	}
	enc := esc
	et := ""
	if v.Get("encoding-type") == "url" {
		enc = url.QueryEscape
		et = "<EncodingType>url</EncodingType>"
	}
	var b bytes.Buffer
	b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?><ListBucketResult>" + et)
	fmt.Fprintf(&b, "<Prefix>%s</Prefix><MaxKeys>%d</MaxKeys><IsTruncated>%v</IsTruncated>", enc(v.Get("prefix")), max, trunc)
	if trunc && v2 {
		fmt.Fprintf(&b, "<NextContinuationToken>t:%s</NextContinuationToken>", esc(ks[len(ks)-1]))
	}
	for _, k := range ks {
		fmt.Fprintf(&b, "<Contents><Key>%s</Key><Size>%d</Size><ETag>%s</ETag></Contents>", enc(k), len(f.objs[k]), esc(tag(f.objs[k])))
	}
	b.WriteString("</ListBucketResult>")
	return reply(q, 200, http.Header{"Content-Type": {"application/xml"}}, b.Bytes())
}

// failing reads n bytes of b, then breaks
type failing struct {
	r io.Reader
}

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errors.New("source broke")
	}
	return n, err
}

var keyNames = map[string]string{"k1": "a+b", "k2": "a/1.json", "k3": "a/2 x&y", "k4": "b/é?=#1"}
var prefixes = map[string]string{"": "", "a": "a", "a/": "a/", "b/": "b/", "c": "c"}

func c38(c *Ctx) {
	for _, v := range os.Environ() {
		if k := strings.SplitN(v, "=", 2)[0]; strings.HasPrefix(k, "AWS_") {
			os.Unsetenv(k)
		}
	}
	os.Setenv("AWS_CONFIG_FILE", os.DevNull)
	os.Setenv("AWS_SHARED_CREDENTIALS_FILE", os.DevNull)
	os.Setenv("AWS_EC2_METADATA_DISABLED", "true")
	http.DefaultTransport = all
	os.Setenv("AWS_ACCESS_KEY_ID", "AKIAEXAMPLE")
	os.Setenv("AWS_SECRET_ACCESS_KEY", "secret")
	session := func(r *Rec, name string, page int) (*s3api.Client, *fake) {
		f := &fake{objs: map[string][]byte{}, parts: map[string]map[int][]byte{}, pkey: map[string]string{}, page: page, seen: map[string]int{}}
		all.mu.Lock()
		all.m[name] = f
		all.mu.Unlock()
		cl, err := s3api.NewClient(name)
		if err != nil {
			panic(err)
		}
		return cl, f
	}
	type hist struct {
		H [][]string `json:"h"`
	}
	run := func(r *Rec, name string, page int, big bool, h [][]string) {
		cl, f := session(r, name, page)
		objs := [][]byte{nil, RandBytes(r.Rnd, 1+r.Rnd.Intn(300)), RandBytes(r.Rnd, 1+r.Rnd.Intn(300)), RandBytes(r.Rnd, 301)}
		if big {
			objs[2] = RandBytes(r.Rnd, 11<<20+r.Rnd.Intn(1000))
			objs[3] = RandBytes(r.Rnd, 5<<20)
		}
		which := func(b []byte) int {
			for i := 1; i < len(objs); i++ {
				if bytes.Equal(b, objs[i]) {
					return i
				}
			}
			return 0
		}
		sizes := []int{len(objs[1]), len(objs[2]), len(objs[3])}
		r.Hdr["sizes"] = sizes
		for _, s := range h {
			key := keyNames[s[1]]
			if key == "" {
				key = s[1]
			}
			o, _ := strconv.Atoi(s[2])
			fault := s[3]
			f.fault, f.faulted = fault, false
			e := Ev{"op": s[0], "k": Bytes([]byte(key)), "o": o, "fault": fault, "out": 0, "keys": [][]int{}, "szs": []int{}}
			var res, msg string
			switch s[0] {
			case "up":
				res, msg = Try(func() error {
					var body io.Reader = bytes.NewReader(objs[o])
					if fault == "source" {
						body = failing{bytes.NewReader(objs[o][:len(objs[o])/2])}
					} else if r.Rnd.Intn(2) == 0 {
						body = io.MultiReader(bytes.NewReader(objs[o][:len(objs[o])/3]), bytes.NewReader(objs[o][len(objs[o])/3:]))
					}
					return cl.Upload(key, body)
				})
			case "down":
				w := aws.NewWriteAtBuffer(nil)
				res, msg = Try(func() error { return cl.Download(key, w) })
				if res == "ok" {
					e["out"] = which(w.Bytes())
				}
			case "del":
				res, msg = Try(func() error { return cl.Delete(key) })
			case "head":
				res, msg = Try(func() error { return cl.HeadObject(key) })
			case "list":
				e["k"] = Bytes([]byte(s[1]))
				res, msg = Try(func() error {
					l, err := cl.ListObjects(s[1])
					ks, sz := [][]int{}, []int{}
					for _, x := range l {
						ks, sz = append(ks, Bytes([]byte(*x.Key))), append(sz, int(*x.Size))
					}
					if err == nil {
						e["keys"], e["szs"] = ks, sz
					}
					return err
				})
			}
			e["res"] = res
			if res != "ok" && len(msg) > 200 {
				msg = msg[:200]
			}
			e["msg"] = msg
			r.Add(e)
		}
	}
	var hs [][][]string
	for _, raw := range c.Scen {
		var s hist
		if err := json.Unmarshal(raw, &s); err != nil {
			panic(err)
		}
		hs = append(hs, s.H)
	}
	// histories one by one, and several on end
	n := c.N(1200, 12000)
	for i := 0; i < n && len(hs) > 0; i++ {
		id := fmt.Sprintf("hist-%d", i)
		h := hs[i*len(hs)/n]
		c.Add("hist", id, func(r *Rec) { run(r, id, 1+r.Rnd.Intn(3), i%80 == 0, h) })
	}
	for i := 0; i < c.N(60, 600) && len(hs) > 0; i++ {
		id := fmt.Sprintf("long-%d", i)
		c.Add("hist", id, func(r *Rec) {
			var h [][]string
			for k := 0; k < 8; k++ {
				h = append(h, hs[r.Rnd.Intn(len(hs))]...)
			}
			run(r, id, 1+r.Rnd.Intn(3), false, h)
		})
	}
	// many objects: several pages
	for i := 0; i < c.N(12, 60); i++ {
		id := fmt.Sprintf("pages-%d", i)
		c.Add("pages", id, func(r *Rec) {
			n := 1 + r.Rnd.Intn(20)
			page := 1 + r.Rnd.Intn(7)
			var h [][]string
			for k := 0; k < n; k++ {
				h = append(h, []string{"up", s3api.ObjectKey([]string{"x", "x/y", "z"}[r.Rnd.Intn(3)], uint64(r.Rnd.Intn(2000))), "1", ""})
			}
			for _, p := range []string{"", "x", "x/", "x/y/1", "z/"} {
				h = append(h, []string{"list", p, "0", ""})
			}
			h = append(h, []string{"list", "", "0", "once"}, []string{"list", "", "0", "deny"})
			run(r, id, page, false, h)
		})
	}
	for i := 0; i < c.N(4, 20); i++ {
		c.Add("key", fmt.Sprintf("key-%d", i), func(r *Rec) {
			for k := 0; k < 10; k++ {
				p := []string{"", "a", "a/b", "x y"}[r.Rnd.Intn(4)]
				n := r.Rnd.Uint64() >> uint(r.Rnd.Intn(64))
				r.Add(Ev{"op": "key", "p": Bytes([]byte(p)), "n": Bytes([]byte(fmt.Sprint(n))), "key": Bytes([]byte(s3api.ObjectKey(p, n)))})
			}
		})
	}
}
