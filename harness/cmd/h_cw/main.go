// Command h_cw observes the CW decoder and demodulators (C08-C10, C36, C40).
package main

import "verif/vh"

func main() {
	vh.Main(map[string]func(*vh.Run){"C08": c08, "C09": c09, "C10": c10, "C36": c36, "C40": c40})
}
