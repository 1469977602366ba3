// seedgen DIR NAME writes the inputs of a demonstration: gzipped files and args.
package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/mc/props"
)

func main() {
	if len(os.Args) < 3 {
		for n := range props.Seeds() {
			fmt.Println(n)
		}
		return
	}
	s := props.Seeds()[os.Args[2]]()
	for n, b := range s.Files {
		var z bytes.Buffer
		w, _ := gzip.NewWriterLevel(&z, 9)
		w.Write(b)
		w.Close()
		os.WriteFile(filepath.Join(os.Args[1], n+".gz"), z.Bytes(), 0644)
	}
	os.WriteFile(filepath.Join(os.Args[1], "args"), []byte(strings.Join(s.Args, "\n")+"\n"), 0644)
}
