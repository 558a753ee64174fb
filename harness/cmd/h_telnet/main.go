// Command h_telnet observes the telnet server (C22-C25).
package main

import "verif/vh"

func main() {
	vh.Main(map[string]func(*vh.Run){"C22": c22, "C23": c23, "C24": c24, "C25": c25})
}
