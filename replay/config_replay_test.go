package shard

import (
	"fmt"
	"os"
	"strconv"
	"testing"
)

func TestVerifReplayC25(t *testing.T) {
	s := zzNew(t)
	hosts := []string{"", "localhost", "0.0.0.0", "example.org", "::1", " ", "a:b", ":", "127.0.0.1"}
	ports := []string{"", "0", "1", "80", "8080", "65535", "65536", "100000", "-1", "-0", "+5", "-8080", "08", "010", " 80", "80 ", "0x50", "1e3", "80a", "a", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "٣", "1_000", "1,000", "80.0"}
	unset := "\x00unset"
	defaults := []*Config{nil, {}, {Host: "d.example", Port: 99}, {Host: "", Port: -7}, {Host: "x", Port: 0}}
	set := func(n, v string) {
		if v == unset {
			os.Unsetenv(n)
		} else {
			os.Setenv(n, v)
		}
	}
	for round := 0; round < 5 && s.more(); round++ {
		for _, h := range append(hosts, unset) {
			for _, p := range append(ports, unset, strconv.FormatInt(int64(s.val()), 10)) {
				for _, d := range defaults {
					h, p, d := h, p, d
					s.try(func() string { return fmt.Sprintf("REC_HOST=%q REC_PORT=%q defaults %+v", h, p, d) }, func() string {
						set("REC_HOST", h)
						set("REC_PORT", p)
						want := Config{Host: "localhost", Port: 8080}
						if d != nil {
							want = *d
						}
						if h != "" && h != unset {
							want.Host = h
						}
						if n, err := strconv.Atoi(p); err == nil && n >= 0 {
							want.Port = n
						}
						c := NewConfigFromEnv(d)
						if c == nil || c.Host != want.Host || c.Port != want.Port {
							return fmt.Sprintf("%+v instead of %+v", c, want)
						}
						if a := c.GetHostPort(); a != want.Host+":"+strconv.Itoa(want.Port) {
							return "the address is " + a
						}
						return ""
					})
				}
			}
		}
	}
}
