package main

import (
	"fmt"
	"os"
	"strconv"
	"time"
)

func main() {
	if d := os.Getenv("XV_VERIF"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: xv check <property>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2]))
	case "worker":
		worker(os.Args[2], os.Args[3])
	case "history":
		history(os.Args[2])
	case "concurrent":
		concurrent(os.Args[2])
	case "dump": // dump <seed> <n>: random documents, for debugging
		for _, d := range RandomDocs(1, baseProfile(), 1) {
			fmt.Println(Style{Prefix: "xs", Target: "t", Indent: true}.XML(d))
		}
	case "diags": // diags <seed> <n>: what compilers say of random documents, for debugging
		seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
		n, _ := strconv.Atoi(os.Args[3])
		c := &Check{ID: "C22", Seed: seed, Coverage: map[string]interface{}{}}
		c.S = NewScratch()
		defer c.S.Close()
		docs := wrap(RandomDocs(seed, profileFor("C22"), n), "random", seed, defaultStyle)
		c.runDocs(docs, false, false)
		k := NewCompilers(c.S.Dir)
		for _, l := range compiled {
			var srcs []string
			for _, d := range docs {
				srcs = append(srcs, d.raw[l].Out["s.xsd"+extOf[l]])
			}
			t := time.Now()
			for i, ds := range k.Check(l, srcs) {
				for _, d := range ds {
					fmt.Println(l, i, d.Code, d.At, d.What)
				}
			}
			fmt.Fprintln(os.Stderr, l, time.Since(t))
		}
		for i, d := range docs {
			writeTree(fmt.Sprintf("/tmp/t/diags/%d", i), d.raw["TypeScript"].Out)
			writeTree(fmt.Sprintf("/tmp/t/diags/%d", i), d.raw["Java"].Out)
			writeTree(fmt.Sprintf("/tmp/t/diags/%d", i), d.raw["Rust"].Out)
			writeTree(fmt.Sprintf("/tmp/t/diags/%d", i), map[string]string{"s.xsd": d.xml})
		}
	default:
		os.Exit(2)
	}
}
