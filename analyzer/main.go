package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"
)

func main() {
	dir := flag.String("repo", "/repo", "repository")
	root := flag.String("verif", "/verif", "where evidence and known findings are")
	dbg := flag.String("debug", "", "print the events of a root")
	check := flag.String("check", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.String("worker", "", "property (internal)")
	target := flag.String("target", "", "target of the worker (internal)")
	budget := flag.Int("budget", 600, "seconds per target")
	list := flag.Bool("list", false, "list the properties that are decided")
	flag.Parse()
	if *list {
		for _, pr := range props {
			b, _ := json.Marshal(map[string]string{"id": pr.ID, "rule": pr.Rule, "limits": pr.Limits, "technique": pr.technique()})
			fmt.Println(string(b))
		}
		return
	}
	if *check != "" {
		os.Exit(checkMain(*check, *dir, *root, *tier))
	}
	p, err := load(*dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	if *worker != "" {
		workerMain(p, *worker, *target, time.Duration(*budget)*time.Second)
		return
	}
	if *dbg == "roots" {
		for _, r := range p.roots() {
			fmt.Println(r.Kind, r.Fn)
		}
		return
	}
	if *dbg != "" {
		debugRoot(p, *dbg, flag.Args())
	}
}
