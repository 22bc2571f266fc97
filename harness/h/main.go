package h

import (
	"flag"
	"os"
)

// Main supervises the shards of a property, or runs one.
func Main() {
	registerWord()
	if len(os.Args) > 1 && os.Args[1] == "dict" {
		WriteDictBase()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "child" {
		var o ChildOpts
		fs := flag.NewFlagSet("child", flag.ExitOnError)
		fs.StringVar(&o.Prop, "prop", "", "")
		fs.Int64Var(&o.Seed, "seed", 1, "")
		fs.StringVar(&o.Tier, "tier", "quick", "")
		fs.IntVar(&o.Shard, "shard", 0, "")
		fs.IntVar(&o.Shards, "shards", 1, "")
		fs.StringVar(&o.OnlyCat, "cat", "", "")
		fs.IntVar(&o.OnlyIdx, "idx", 0, "")
		fs.StringVar(&o.Out, "out", "", "")
		fs.StringVar(&o.Journal, "journal", "", "")
		fs.Parse(os.Args[2:])
		os.Exit(RunChild(o))
	}
	os.Exit(Parent(os.Args[1:]))
}
