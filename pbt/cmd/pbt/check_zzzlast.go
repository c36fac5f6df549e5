package main

// The families added to other checks after check_zcross.go's turn, as cases
// of C01: none may panic or fail to end.

func init() {
	c1 := checks["C01"]
	have := map[string]bool{}
	for _, f := range c1.Families {
		have[f.Name] = true
	}
	for _, id := range []string{"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C20"} {
		for _, f := range checks[id].Families {
			g := panicsOnly(id, f)
			if have[g.Name] || f.Name == "sizes" || id == "C04" && f.Name == "many constants" || id == "C15" && f.Name == "much used" {
				continue
			}
			c1.Families = append(c1.Families, g)
		}
	}
}
