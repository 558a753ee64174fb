// Command h_dsp observes the signal processing primitives and the address parser (C01-C07, C33).
package main

import "verif/vh"

func main() {
	vh.Main(map[string]func(*vh.Run){
		"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C33": c33, "C35": c35,
	})
}
