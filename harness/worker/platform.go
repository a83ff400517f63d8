package main

// C21 runs the cases of the other properties on 32-bit builds of the library.
// The orchestrator runs a case that fails once more on the 64-bit build: it
// counts only if it holds there.

var platformMix = []struct {
	id string
	w  int
}{
	{"C01", 8}, {"C02", 8}, {"C03", 8}, {"C04", 10}, {"C05", 6}, {"C06", 8}, {"C07", 6}, {"C08", 6}, {"C09", 4},
	{"C10", 8}, {"C11", 6}, {"C12", 14}, {"C13", 8}, {"C14", 10}, {"C17", 8}, {"C18", 8}, {"C19", 1}, {"C20", 6},
}

func init() {
	tot := 0
	for _, x := range platformMix {
		tot += x.w
	}
	reg(&Profile{
		ID:    "C21",
		Focus: all,
		Rule:  "at least one non-constant result, or what the property of the case is about, was compared with the reference model on a 32-bit build",
		Gen: func(g *Gen) *Case {
			k := g.n(tot)
			for _, x := range platformMix {
				if k -= x.w; k < 0 {
					c := profiles[x.id].Gen(g)
					c.Prop = "C21"
					c.Note = x.id
					return c
				}
			}
			panic("unreachable")
		},
		Special: func(tier string, shard int) (cs []*Case) {
			for _, id := range []string{"C01", "C02", "C03", "C05"} {
				if f := profiles[id].Special; f != nil && (id != "C05" || shard == 0 || shard == 4) {
					for _, c := range f("quick", shard) {
						c.Prop, c.Note = "C21", id
						cs = append(cs, c)
					}
				}
			}
			return
		},
		QuickN: 2500, ThoroughN: 30000,
	})
}
