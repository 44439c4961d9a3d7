package endpoints

import (
	"context"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"recengine/internal/domain"
	"regexp"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
)

var zzNameRe = regexp.MustCompile(`\A[A-Za-z][A-Za-z0-9_-]*\z`)
var zzPlain = regexp.MustCompile(`\A[a-z][a-z0-9]*\z`)

type zzSpace struct {
	name  string
	limit uint64
}

type zzReq struct{ method, seg, body string }

func (r zzReq) String() string { return fmt.Sprintf("%s %s %s", r.method, r.seg, r.body) }

// zzBody: a request body and what it means: ok when it must be accepted by the rules of the API, bad when it must be refused
type zzBody struct {
	text, name string
	limit      uint64
	ok, bad    bool
}

func TestVerifReplayC26(t *testing.T) {
	s := zzNew(t)
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	log.SetOutput(io.Discard)
	names := []string{"a", "b", "c1", "ab", "abc", "ab2", "A", "a-b", "a_b", "1a", "-a", "a.b", "a%20b", "a%0A", "namespace", "name", "%C3%A9"}
	pick := func() string { return names[s.rng.Intn(len(names))] }
	mkbody := func(create bool) zzBody {
		if s.rng.Intn(12) == 0 {
			l := []string{"", "{", "null", "[]", "\"a\"", "{}", "{\"name\":1}", "{\"name\":\"a\"", "tru"}
			return zzBody{text: l[s.rng.Intn(len(l))], bad: true}
		}
		n := pick()
		if strings.Contains(n, "%") || s.rng.Intn(3) > 0 {
			n = names[s.rng.Intn(6)]
		}
		tp := "like"
		if create && s.rng.Intn(8) == 0 {
			tp = []string{"", "Like", "dislike", "likes", "x"}[s.rng.Intn(5)]
		}
		limit := []uint64{0, 1, 2, 7, 1000, 1 << 32}[s.rng.Intn(6)]
		factor := []string{"0.5", "1", "0.25", "0.001", "1.5", "-0.1", "2"}[s.rng.Intn(7)]
		if s.rng.Intn(2) == 0 {
			factor = "0.5"
		}
		b := zzBody{name: n, limit: limit}
		b.text = fmt.Sprintf(`{"name":%q,"maxSimilarProfiles":%d,"dislikeFactor":%s}`, n, limit, factor)
		if create {
			b.text = fmt.Sprintf(`{"name":%q,"type":%q,"maxSimilarProfiles":%d,"dislikeFactor":%s}`, n, tp, limit, factor)
		}
		b.bad = !zzNameRe.MatchString(n) || tp != "like" || factor == "1.5" || factor == "-0.1" || factor == "2"
		b.ok = !b.bad && zzPlain.MatchString(n)
		return b
	}
	for s.more() {
		dir, _ := os.MkdirTemp("", "zzapi")
		os.Setenv("REC_PATH", dir)
		svc := domain.NewNamespaceService(context.Background(), nil, nil)
		router := gin.New()
		NewNamespaceEndpoint(svc).RegisterRoutes(router)
		var reg []zzSpace
		find := func(n string) int {
			for i, e := range reg {
				if e.name == n {
					return i
				}
			}
			return -1
		}
		hist := ""
		for n := 1 + s.rng.Intn(12); n > 0; n-- {
			kind := s.rng.Intn(4)
			r := zzReq{}
			seg := ""
			b := zzBody{}
			switch kind {
			case 0:
				b = mkbody(true)
				r = zzReq{"POST", "", b.text}
			case 1:
				seg = pick()
				r = zzReq{"GET", "/" + seg, ""}
			case 2:
				r = zzReq{"GET", "", ""}
			case 3:
				seg = pick()
				if len(reg) > 0 && s.rng.Intn(3) > 0 {
					seg = reg[s.rng.Intn(len(reg))].name
				}
				b = mkbody(false)
				r = zzReq{"PUT", "/" + seg, b.text}
			}
			hist += r.String() + "; "
			s.try(func() string { return hist }, func() string {
				rec := httptest.NewRecorder()
				req, err := http.NewRequest(r.method, "/api/v1/namespaces"+r.seg, bytes.NewReader([]byte(r.body)))
				if err != nil {
					return ""
				}
				real := strings.TrimPrefix(req.URL.Path, "/api/v1/namespaces")
				seg := strings.TrimPrefix(real, "/")
				router.ServeHTTP(rec, req)
				code := rec.Code
				want := func(codes ...int) string {
					for _, c := range codes {
						if c == code {
							return ""
						}
					}
					return fmt.Sprintf("status %d instead of %v: %s", code, codes, rec.Body.String())
				}
				dec := zzDocs(rec.Body.Bytes())
				if len(dec) != 1 {
					return fmt.Sprintf("%d answers in the response (status %d): %q", len(dec), code, rec.Body.String())
				}
				obj, _ := dec[0].(map[string]interface{})
				shown := func(n string, limit uint64) string {
					if obj == nil || obj["name"] != n || obj["maxSimilarProfiles"] != float64(limit) || obj["type"] != "like" {
						return fmt.Sprintf("the response %s does not show namespace %s with limit %d", rec.Body.String(), n, limit)
					}
					return ""
				}
				check := func() string {
					l := svc.GetNamespaces()
					if len(l) != len(reg) {
						return fmt.Sprintf("%d namespaces are registered instead of %d after status %d", len(l), len(reg), code)
					}
					for i, e := range reg {
						if l[i].GetName().Value() != e.name || uint64(l[i].GetMaxSimilarProfiles()) != e.limit {
							return fmt.Sprintf("namespace %d is %s (%d) instead of %s (%d) after status %d", i, l[i].GetName().Value(), l[i].GetMaxSimilarProfiles(), e.name, e.limit, code)
						}
					}
					return ""
				}
				switch kind {
				case 0:
					if b.bad || find(b.name) >= 0 {
						if m := want(400); m != "" {
							return m
						}
						return check()
					}
					if b.ok {
						if m := want(201); m != "" {
							return m
						}
					} else if m := want(201, 400); m != "" {
						return m
					}
					if code == 201 {
						if b.limit == 0 {
							b.limit = 1000
						}
						reg = append(reg, zzSpace{b.name, b.limit})
						if m := shown(b.name, b.limit); m != "" {
							return m
						}
					}
					return check()
				case 1:
					if !zzNameRe.MatchString(seg) {
						return want(400)
					}
					i := find(seg)
					if i < 0 {
						return want(404)
					}
					if m := want(200); m != "" {
						return m
					}
					return shown(seg, reg[i].limit)
				case 2:
					if m := want(200); m != "" {
						return m
					}
					l, _ := dec[0].([]interface{})
					if len(l) != len(reg) {
						return fmt.Sprintf("%d namespaces listed instead of %d", len(l), len(reg))
					}
					for i := range l {
						o, _ := l[i].(map[string]interface{})
						if o == nil || o["name"] != reg[i].name || o["maxSimilarProfiles"] != float64(reg[i].limit) {
							return fmt.Sprintf("namespace %d listed as %v instead of %v", i, l[i], reg[i])
						}
					}
					return ""
				}
				if !zzNameRe.MatchString(seg) {
					return want(400)
				}
				i := find(seg)
				if i < 0 {
					return want(404)
				}
				if b.bad || b.name != seg && find(b.name) >= 0 {
					if m := want(400); m != "" {
						return m
					}
					return check()
				}
				if b.ok {
					if m := want(200); m != "" {
						return m
					}
				} else if m := want(200, 400); m != "" {
					return m
				}
				if code == 200 {
					reg[i] = zzSpace{b.name, b.limit}
					if m := shown(b.name, b.limit); m != "" {
						return m
					}
				}
				return check()
			})
		}
		os.RemoveAll(dir)
	}
}

func zzDocs(b []byte) (out []interface{}) {
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var v interface{}
		if err := d.Decode(&v); err == io.EOF {
			return out
		} else if err != nil {
			return append(out, "not JSON: "+string(b), nil)
		}
		out = append(out, v)
	}
}
