package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

// usage:
//
//	harness check <property> <tier> <root> <race binary>
//	harness worker <property> <tier> <seed> <shard> <shards> <cases> <dir>
//	harness replay <property> <file>
//	harness list
func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	find := func(id string) *check {
		for _, c := range checks() {
			if c.id == id {
				return c
			}
		}
		fmt.Println("no such property:", id)
		os.Exit(2)
		return nil
	}
	num := func(s string) uint64 {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			fmt.Println("not a number:", s)
			os.Exit(2)
		}
		return v
	}
	a := os.Args[1:]
	switch a[0] {
	case "list":
		for _, c := range checks() {
			fmt.Println(c.id)
		}
	case "needs-race":
		if !find(a[1]).race {
			os.Exit(1)
		}
	case "check":
		seed := uint64(1)
		if v := os.Getenv("VERIF_SEED"); v != "" {
			seed = num(v)
		}
		self, _ := filepath.Abs(os.Args[0])
		os.Exit(supervise(find(a[1]), a[2], seed, a[3], self, a[4]))
	case "worker":
		runWorker(find(a[1]), a[2], num(a[3]), int(num(a[4])), int(num(a[5])), int(num(a[6])), a[7], -1)
	case "texts":
		coldTexts(num(a[1]), a[2])
	case "one":
		// one case in this process
		dir, _ := os.MkdirTemp("", "verif-one-")
		defer os.RemoveAll(dir)
		only := int64(-2)
		if a[3] != "directed" {
			only = int64(num(a[3]))
		}
		runWorker(find(a[1]), "quick", num(a[2]), 0, 1, 0, dir, only)
		show(filepath.Join(dir, "w0.json"))
	case "replay":
		b, err := os.ReadFile(a[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r struct {
			Tier  string
			Seed  uint64
			Index string
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dir, _ := os.MkdirTemp("", "verif-replay-")
		defer os.RemoveAll(dir)
		idx := num(r.Index)
		only := int64(idx)
		if idx == directedIndex {
			only = -2
		}
		runWorker(find(a[1]), r.Tier, r.Seed, 0, 1, 0, dir, only)
		show(filepath.Join(dir, "w0.json"))
	default:
		os.Exit(2)
	}
}

func show(path string) {
	b, _ := os.ReadFile(path)
	var r workerReport
	json.Unmarshal(b, &r)
	for _, f := range r.Faults {
		fmt.Println(f.Text)
	}
	for k, v := range r.Known {
		fmt.Println("known:", k, v)
	}
	if len(r.Faults) == 0 {
		fmt.Println("no fault")
		for _, s := range r.Samples {
			fmt.Println("sample:", s)
		}
	}
}
