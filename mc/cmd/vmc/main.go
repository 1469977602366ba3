// vmc is the model checker's command: check, worker, replay, list.
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"verif/mc/eng"
	"verif/mc/props"
)

func main() {
	a := os.Args
	if len(a) < 2 {
		fmt.Println("usage: vmc check ID [thorough] | replay FILE | list")
		os.Exit(2)
	}
	switch a[1] {
	case "check":
		th := os.Getenv("VERIF_TIER") == "thorough"
		if len(a) > 3 {
			th = a[3] == "thorough"
		}
		os.Exit(eng.Main(a[2], th))
	case "worker":
		i, _ := strconv.Atoi(a[3])
		n, _ := strconv.Atoi(a[4])
		dl, _ := strconv.ParseInt(a[8], 10, 64)
		eng.Worker(a[2], i, n, a[5] == "thorough", a[6], a[7], time.Unix(0, dl))
	case "replay":
		os.Exit(eng.Replay(a[2], len(a) > 3 && a[3] == "-q"))
	case "logprobe":
		props.LogProbe(a[2:])
	case "smoke": // smoke HEAD STRIDE MS [ID...]
		h, _ := strconv.Atoi(a[2])
		n, _ := strconv.Atoi(a[3])
		ms, _ := strconv.Atoi(a[4])
		os.Exit(eng.Smoke(a[5:], h, n, time.Duration(ms)*time.Millisecond))
	case "list":
		eng.List()
	}
}
