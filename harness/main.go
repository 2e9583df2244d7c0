// Command comfocheck decides the properties of /verif/properties.jsonl by
// generated-input search. See /verif/DESIGN.md.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"comfoverif/core"
	_ "comfoverif/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: comfocheck run|worker|child|replay|list")
		os.Exit(2)
	}
	self, _ := os.Executable()
	dir := filepath.Dir(self)
	core.Bins[core.Real] = filepath.Join(dir, "comfocheck")
	core.Bins[core.Fake] = filepath.Join(dir, "comfocheck-fake")
	core.Bins[core.Race] = filepath.Join(dir, "comfocheck-race")

	testing.Init() // rapid asks testing.Short()
	cmd := os.Args[1]
	fs := flag.CommandLine
	switch cmd {
	case "child":
		core.ChildMain()
	case "worker":
		ck := fs.String("check", "", "")
		tier := fs.String("tier", "quick", "")
		seed := fs.Uint64("seed", 1, "")
		shard := fs.Int("shard", 0, "")
		shards := fs.Int("shards", 1, "")
		cases := fs.Int("cases", 0, "")
		out := fs.String("out", "", "")
		fs.Parse(os.Args[2:])
		os.Exit(core.Worker(*ck, *tier, *seed, *shard, *shards, *cases, *out))
	case "run":
		prop := fs.String("prop", "", "")
		tier := fs.String("tier", "quick", "")
		shards := fs.Int("shards", 8, "")
		only := fs.String("only", "", "")
		scale := fs.Float64("scale", 1, "")
		ev := fs.String("evidence", "", "")
		rd := fs.String("replays", "", "")
		fs.Parse(os.Args[2:])
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if v, err := strconv.ParseInt(s, 10, 64); err == nil {
				seed = uint64(v)
			}
		}
		os.Exit(core.Orchestrate(core.Config{Prop: *prop, Tier: *tier, Seed: seed, Shards: *shards, Only: *only,
			Scale: *scale, Evidence: *ev, ReplayDir: *rd}))
	case "replay":
		if len(os.Args) != 3 {
			os.Exit(2)
		}
		os.Exit(core.ReplayFile(os.Args[2]))
	case "modes": // the builds needed for a property or one check
		seen := map[core.Mode]bool{}
		for _, c := range core.ForProp(os.Args[2][:3]) {
			if (len(os.Args[2]) == 3 || c.ID() == os.Args[2]) && !seen[c.Mode] {
				seen[c.Mode] = true
				fmt.Print(c.Mode, " ")
			}
		}
		fmt.Println()
	case "list":
		for _, p := range core.Props() {
			for _, c := range core.ForProp(p) {
				fmt.Println(c.ID(), c.Mode, c.Quick, c.Thorough)
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}
