package h

import "strconv"

// The monitors of the other properties on a 32-bit platform: this program, the library and the generated
// code are built for GOARCH=386 by the check script.

// Properties left out: races (the race detector needs a 64-bit platform) and long runs.
var word32 = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C15", "C16", "C17",
	"C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C30"}

func registerWord() {
	p := &Prop{ID: "C29", MinEvents: 1000000,
		Rule: "a case is a case of another property's check (named in the category), run on a 32-bit platform against the same reference; non-trivial as there"}
	for _, id := range word32 {
		for _, cat := range Props[id].Cats {
			q, th := cat.Quick, min(cat.Thorough, cat.Quick*12)
			if cat.Quick >= cat.Thorough {
				th = cat.Thorough
			}
			run := cat.Run
			p.Cats = append(p.Cats, Category{id + " " + cat.Name, q, th, func(c *C) {
				c.Prop = id
				c.Event("cases on "+strconv.Itoa(strconv.IntSize)+" bits", 1)
				run(c)
			}})
		}
	}
	Prepare["C29"] = func(seed int64, tier, scratch string) (string, *Violation, string) {
		if strconv.IntSize != 32 {
			return "", nil, "not built for a 32-bit platform"
		}
		return cgPrepare("C29", seed, tier, scratch)
	}
	ChildEnvs["C29"] = ChildEnvs["C18"]
	Register(p)
}
