package dto

import (
	"errors"
	"fmt"
	"testing"
)

func zzNameOK(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !letter && (i == 0 || !(c >= '0' && c <= '9' || c == '_' || c == '-')) {
			return false
		}
	}
	return len(s) > 0
}

// strings around the boundary of what is acceptable
func zzStrings(s *zzSearch) []string {
	var l []string
	odd := []string{"", "/", ".", "..", "../x", "\n", "\r", "\x00", " ", "\t", "ſ", "K", "é", "\xff", "\xc3", "日本", "_", "-", "0", "9", "@", "[", "`", "{", ":", "\\", "a", "Z", "like", "Like", "LIKE", "lik", "likee", "like ", " like", "like\n", "like\x00", "dislike"}
	l = append(l, odd...)
	for _, o := range odd {
		l = append(l, "a"+o, "Ab1_-"+o, o+"a", "ab"+o+"cd", "a\n"+o, o+"\na")
	}
	for c := 0; c < 256; c++ {
		l = append(l, string([]byte{byte(c)}), string([]byte{'b', byte(c)}), string([]byte{byte(c), 'b'}), string([]byte{'b', byte(c), 'c'}))
	}
	const alphabet = "abzAZ019_-_-./\n k"
	for n := 0; n < 400; n++ {
		b := make([]byte, s.rng.Intn(12))
		for i := range b {
			b[i] = alphabet[s.rng.Intn(len(alphabet))]
		}
		l = append(l, string(b))
	}
	long := make([]byte, 70000)
	for i := range long {
		long[i] = 'x'
	}
	for _, n := range []int{2, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 4096, 65535, 65536, 70000} {
		l = append(l, string(long[:n]))
	}
	return l
}

func zzShow(x string) string {
	if len(x) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", x[:20], len(x))
	}
	return fmt.Sprintf("%q", x)
}

func zzRefused(err error, want []string) string {
	var ve *ValidationError
	if !errors.As(err, &ve) || ve == nil {
		return fmt.Sprintf("refused with %v, which names no field", err)
	}
	got := []string{}
	for _, f := range ve.Fields() {
		got = append(got, f.Field)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("the error names the fields %v instead of %v", got, want)
	}
	return ""
}

func TestVerifReplayC20(t *testing.T) {
	s := zzNew(t)
	types := []string{"like", "", "Like", "like ", "dislike", "x/y"}
	for round := 0; round < 40 && s.more(); round++ {
		for _, x := range zzStrings(s) {
			x, typ := x, types[s.rng.Intn(len(types))]
			if s.rng.Intn(2) == 0 {
				typ = "like"
			}
			n, f := uint(s.val()), s.rng.Float32()
			var bad []string
			if !zzNameOK(x) {
				bad = append(bad, "name")
			}
			s.try(func() string { return "update request with name " + zzShow(x) }, func() string {
				r, err := (&NamespaceUpdateRequest{Name: x, MaxSimilarProfiles: n, DislikeFactor: f}).ToDomain()
				if len(bad) == 0 {
					if err != nil || r == nil || r.Name.Value() != x || r.MaxSimilarProfiles != n || r.DislikeFactor != f {
						return fmt.Sprintf("gives %+v, error %v", r, err)
					}
					return ""
				}
				return zzRefused(err, bad)
			})
			badc := append([]string{}, bad...)
			if typ != "like" {
				badc = append(badc, "type")
			}
			s.try(func() string { return "create request with name " + zzShow(x) + " and type " + zzShow(typ) }, func() string {
				r, err := (&NamespaceCreateRequest{Name: x, Type: typ, MaxSimilarProfiles: n, DislikeFactor: f}).ToDomain()
				if len(badc) == 0 {
					if err != nil || r == nil || r.Name.Value() != x || r.Type.Value() != typ || r.MaxSimilarProfiles != n || r.DislikeFactor != f {
						return fmt.Sprintf("gives %+v, error %v", r, err)
					}
					return ""
				}
				return zzRefused(err, badc)
			})
		}
	}
}
