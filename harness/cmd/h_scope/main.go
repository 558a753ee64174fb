// Command h_scope observes the scope server and client (C26-C28).
package main

import (
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"sync/atomic"

	"verif/vh"
)

func main() {
	log.SetOutput(io.Discard)
	vh.Main(map[string]func(*vh.Run){"C26": c26, "C27": c27, "C28": c28})
}

func raceStage() bool { return os.Getenv("VERIF_STAGE") == "race" }

var hostCounter atomic.Int64

// freeAddress returns an address on a loopback host that is not used by another process of this check.
func freeAddress() string {
	pid := os.Getpid()
	host := fmt.Sprintf("127.%d.%d.%d", 1+pid>>8&127, pid&255, 1+hostCounter.Add(1)%250)
	for _, h := range []string{host, "127.0.0.1"} {
		l, err := net.Listen("tcp", h+":0")
		if err == nil {
			defer l.Close()
			return l.Addr().String()
		}
	}
	return "127.0.0.1:0"
}
