// parsefilter tells which texts the third-party PHP parser itself cannot
// digest (it panics or never returns), so that the workloads can tell defects
// of this repository from defects of that dependency.
package main

import (
	"bufio"
	"encoding/base64"
	"fmt"
	"os"
	"time"

	"github.com/john-nguyen09/go-phpparser/parser"
)

func try(b []byte) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = "panic"
		}
	}()
	parser.Parse(b)
	return "ok"
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		b, err := base64.StdEncoding.DecodeString(line[:len(line)-1])
		if err != nil {
			fmt.Println("bad")
			continue
		}
		done := make(chan string, 1)
		go func() { done <- try(b) }()
		select {
		case r := <-done:
			fmt.Println(r)
		case <-time.After(4 * time.Second):
			fmt.Println("loop")
			os.Exit(0)
		}
	}
}
