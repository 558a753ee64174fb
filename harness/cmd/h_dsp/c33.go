package main

import (
	"fmt"
	"net"
	"strconv"
	"strings"

	"github.com/ftl/sdrainer/cli"

	"verif/vh"
)

func c33(r *vh.Run) {
	r.Rule("all combinations of host forms (empty, localhost, IPv4, IPv6 in brackets) and port forms (missing, colon only, valid, leading zeros, 0, too large, not a number) with several defaults, plus random addresses and mutated strings; no name is resolved through the network; distinct: argument and defaults")
	type host struct{ arg, want string } // want "" means default, "!" error
	hosts := []host{{"", ""}, {"localhost", "127.0.0.1"}, {"127.0.0.1", "127.0.0.1"}, {"192.168.178.23", "192.168.178.23"}, {"0.0.0.0", "0.0.0.0"},
		{"[::1]", "::1"}, {"[fe80::1]", "fe80::1"}, {"[::]", "::"}, {"[2001:db8::8a2e:370:7334]", "2001:db8::8a2e:370:7334"}, {"255.255.255.255", "255.255.255.255"}}
	type port struct {
		arg  string
		want int // -1 default, -2 error
	}
	ports := []port{{"", -1}, {":", -1}, {":0", 0}, {":1", 1}, {":40001", 40001}, {":65535", 65535}, {":08073", 8073}, {":65536", -2}, {":99999999999999999999", -2}, {":-1", -2}, {":12x", -2}, {":+12", -2}, {": 12", -2}, {":1:2", -2}}
	check := func(c *vh.C, arg, defaultHost string, defaultPort int, wantHost string, wantPort int) {
		c.Eval(1)
		c.Key(fmt.Sprint(arg, "|", defaultHost, "|", defaultPort))
		got, err := cli.ParseTCPAddrArg(arg, defaultHost, defaultPort)
		if wantHost == "!" || wantPort == -2 {
			if err == nil {
				c.Failf("ParseTCPAddrArg(%q, %q, %d) = %v, expected an error", arg, defaultHost, defaultPort, got)
			}
			c.Count("errors", 1)
			return
		}
		if err != nil {
			c.Failf("ParseTCPAddrArg(%q, %q, %d): %v, expected %s %d", arg, defaultHost, defaultPort, err, wantHost, wantPort)
			return
		}
		if got == nil || !got.IP.Equal(net.ParseIP(wantHost)) || got.Port != wantPort {
			c.Failf("ParseTCPAddrArg(%q, %q, %d) = %v, expected %s %d", arg, defaultHost, defaultPort, got, wantHost, wantPort)
		}
		c.Count("addresses", 1)
	}
	r.Case("table", func(c *vh.C) {
		for _, dh := range []host{{"localhost", "127.0.0.1"}, {"10.1.2.3", "10.1.2.3"}, {"::1", "::1"}} {
			for _, dp := range []int{40001, 8073, 1} {
				for _, h := range hosts {
					for _, p := range ports {
						wantHost, wantPort := h.want, p.want
						if wantHost == "" {
							wantHost = dh.want
						}
						if wantPort == -1 {
							wantPort = dp
						}
						if h.arg == "" && p.arg == ":1:2" {
							wantPort = -2
						}
						check(c, h.arg+p.arg, dh.arg, dp, wantHost, wantPort)
					}
				}
			}
		}
		for _, bad := range []string{"[::1", "::1]", "[::1]]", "[[::1]]", "1.2.3.4.5:80", "[1.2.3.4", "127.0.0.1:80:", "[::1]:80:90", "[::1]x:80", "[:::1]:80", "[]x", "::", "fe80::1::2"} {
			check(c, bad, "localhost", 40001, "!", 0)
		}
		c.Sample("[2001:db8::8a2e:370:7334]:08073")
	})
	r.Parallel(8, r.N(5000, 100000), func(i int) {
		r.Case(fmt.Sprintf("random/%d", i), func(c *vh.C) {
			ip := make(net.IP, 4)
			if c.Intn(2) == 0 {
				ip = make(net.IP, 16)
			}
			c.Read(ip)
			if len(ip) == 16 {
				for j := range ip {
					if c.Intn(2) == 0 {
						ip[j] = 0
					}
				}
				ip[0] = 0x20
			}
			arg, port := ip.String(), 1+c.Intn(65535)
			if len(ip) == 16 {
				arg = "[" + arg + "]"
			}
			if c.Intn(3) > 0 {
				check(c, arg+":"+strconv.Itoa(port), "localhost", 40001, ip.String(), port)
			} else {
				check(c, arg, "localhost", port, ip.String(), port)
			}
			if i < 4 {
				c.Sample(arg)
			}
			// mutated arguments: no crash, and what is accepted is the given host and port
			b := []byte(arg + ":" + strconv.Itoa(port))
			for j := 0; j < 1+c.Intn(3); j++ {
				k := c.Intn(len(b))
				switch c.Intn(3) {
				case 0:
					b[k] = "0123456789:[]. "[c.Intn(15)]
				case 1:
					b = append(b[:k], b[k+1:]...)
				case 2:
					b = append(b[:k], append([]byte{"0123456789:[]."[c.Intn(14)]}, b[k:]...)...)
				}
				if len(b) == 0 {
					b = []byte(":")
				}
			}
			mutated := string(b)
			got, err := cli.ParseTCPAddrArg(mutated, "127.0.0.9", 4711)
			c.Eval(1)
			c.Count("mutated arguments", 1)
			if err != nil {
				return
			}
			h, p := mutated, "4711"
			if k := strings.LastIndexByte(mutated, ':'); k >= 0 && !strings.HasSuffix(mutated, "]") {
				h, p = mutated[:k], mutated[k+1:]
			}
			h = strings.TrimSuffix(strings.TrimPrefix(h, "["), "]")
			if h == "" {
				h = "127.0.0.9"
			}
			if p == "" {
				p = "4711"
			}
			n, perr := strconv.Atoi(p)
			if perr != nil || got.Port != n || !got.IP.Equal(net.ParseIP(h)) {
				c.Failf("ParseTCPAddrArg(%q) = %v, which is not what is given", mutated, got)
			}
		})
	})
}
