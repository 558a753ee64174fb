// h_rx checks the receiver: text processing, tables and pools, listeners, and the receiver itself.
package main

import (
	"io"
	"log"

	"verif/vh"
)

func main() {
	log.SetOutput(io.Discard)
	vh.Main(map[string]func(r *vh.Run){
		"C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C32": c32, "C34": c34, "C37": c37, "C39": c39, "C41": c41,
	})
}
