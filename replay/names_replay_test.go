package valueobjects

import (
	"fmt"
	"testing"
)

func zzNameOK(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !letter && (i == 0 || !(c >= '0' && c <= '9' || c == '_' || c == '-')) {
			return false
		}
	}
	return len(s) > 0
}

// strings around the boundary of what is acceptable
func zzStrings(s *zzSearch) []string {
	var l []string
	odd := []string{"", "/", ".", "..", "../x", "\n", "\r", "\x00", " ", "\t", "ſ", "K", "é", "\xff", "\xc3", "日本", "_", "-", "0", "9", "@", "[", "`", "{", ":", "\\", "a", "Z", "like", "Like", "LIKE", "lik", "likee", "like ", " like", "like\n", "like\x00", "dislike"}
	l = append(l, odd...)
	for _, o := range odd {
		l = append(l, "a"+o, "Ab1_-"+o, o+"a", "ab"+o+"cd", "a\n"+o, o+"\na")
	}
	for c := 0; c < 256; c++ {
		l = append(l, string([]byte{byte(c)}), string([]byte{'b', byte(c)}), string([]byte{byte(c), 'b'}), string([]byte{'b', byte(c), 'c'}))
	}
	const alphabet = "abzAZ019_-_-./\n k"
	for n := 0; n < 400; n++ {
		b := make([]byte, s.rng.Intn(12))
		for i := range b {
			b[i] = alphabet[s.rng.Intn(len(alphabet))]
		}
		l = append(l, string(b))
	}
	long := make([]byte, 70000)
	for i := range long {
		long[i] = 'x'
	}
	for _, n := range []int{2, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 4096, 65535, 65536, 70000} {
		l = append(l, string(long[:n]))
	}
	return l
}

func zzShow(x string) string {
	if len(x) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", x[:20], len(x))
	}
	return fmt.Sprintf("%q", x)
}

func TestVerifReplayC20(t *testing.T) {
	s := zzNew(t)
	for round := 0; round < 40 && s.more(); round++ {
		for _, x := range zzStrings(s) {
			x := x
			s.try(func() string { return "ParseNamespaceName(" + zzShow(x) + ")" }, func() string {
				n, err := ParseNamespaceName(x)
				if (err == nil) != zzNameOK(x) {
					return fmt.Sprintf("error %v", err)
				}
				if err == nil && n.Value() != x {
					return "the accepted value is " + zzShow(n.Value())
				}
				return ""
			})
			s.try(func() string { return "ParseNamespaceType(" + zzShow(x) + ")" }, func() string {
				n, err := ParseNamespaceType(x)
				if (err == nil) != (x == "like") {
					return fmt.Sprintf("error %v", err)
				}
				if err == nil && n.Value() != x {
					return "the accepted value is " + zzShow(n.Value())
				}
				return ""
			})
		}
	}
}
