// Command replay runs harnesses on recorded values against the real build.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"syscall"
	"time"

	"github.com/nginxinc/nginx-go-crossplane/zzverif/h"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

type kase struct {
	Harness string   `json:"harness"`
	Tier    int      `json:"tier"`
	Values  []nd.Val `json:"values"`
}

type result struct {
	Kind     string      `json:"kind"`
	Msg      string      `json:"msg"`
	Shows    [][2]string `json:"shows"`
	Diverged string      `json:"diverged"`
}

func main() {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	var ks []kase
	if err := json.Unmarshal(data, &ks); err != nil {
		var k kase
		if err := json.Unmarshal(data, &k); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(9)
		}
		ks = []kase{k}
	}
	// what the code under test does to files must not reach any that matter
	if os.Getuid() == 0 {
		syscall.Setgroups(nil)
		syscall.Setgid(65534)
		syscall.Setuid(65534)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, k := range ks {
		f := h.All[k.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", k.Harness)
			os.Exit(9)
		}
		// the harness runs on its own goroutine so that a hang can be told from progress
		ch := make(chan result, 1)
		go func() {
			kind, msg := nd.Run(f, k.Values, k.Tier)
			ch <- result{kind, msg, nd.Shows, nd.Diverged}
		}()
		select {
		case r := <-ch:
			enc.Encode(r)
		case <-time.After(20 * time.Second):
			enc.Encode(result{Kind: "hang", Msg: "not finished after 20 s"})
			os.Exit(4)
		}
	}
}
