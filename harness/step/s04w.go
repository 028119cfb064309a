package step

import vs "geGoMetry/verifsym"

// The worklist alone, on every graph of references among three identifiers (thorough:
// four), started from every identifier in turn: every identifier reachable is processed
// exactly once.
//verif:check S04
func Verif_S04_worklist() {
	n := 3
	if vs.Tier() > 0 {
		n = 4
	}
	ids := []string{"#1", "#2", "#3", "#4"}[:n]
	var edge [4][4]bool
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			edge[i][j] = vs.Bool("edge")
		}
	}
	parser := &Parser{lexemes: SymbolTable{}, visited: map[string]struct{}{}}
	var runs [4]int
	fns := make([]parseFn, n)
	for i := range fns {
		i := i
		fns[i] = func(key string) {
			vs.Assert(key == ids[i], "the template is called with its own key")
			runs[i]++
			vs.Assume(runs[i] < 3)
			for j := 0; j < n; j++ {
				if edge[i][j] {
					parser.nextStates = append(parser.nextStates, parseState{fn: fns[j], key: ids[j]})
				}
			}
		}
	}
	starts := vs.Concretize(vs.Int("starts", 1, n))
	var want [4]bool
	for s := 0; s < starts; s++ {
		parser.runInferenceModel(parseState{fn: fns[s], key: ids[s]})
		want[s] = true
	}
	for r := 0; r < n; r++ {
		for i := 0; i < n; i++ {
			if want[i] {
				for j := 0; j < n; j++ {
					if edge[i][j] {
						want[j] = true
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if want[i] {
			vs.Assert(runs[i] == 1, "every instance reached is processed exactly once")
		} else {
			vs.Assert(runs[i] == 0, "no other instance is processed")
		}
	}
	vs.Cover("done")
}
