package ref

// Accepts says if the start symbol derives the input, by Earley's algorithm:
// for long inputs, for which the table of Derive is too large.
func (c *C) Accepts(in []int) bool {
	type item struct{ rule, dot, from int }
	nl := c.Nullable()
	n := len(in)
	sets := make([][]item, n+1)
	seen := map[item]int{} // the last set an item was put into, plus 1
	put := func(k int, it item) {
		if seen[it] != k+1 {
			seen[it] = k + 1
			sets[k] = append(sets[k], it)
		}
	}
	for _, r := range c.Rules[0] {
		put(0, item{r, 0, 0})
	}
	for k := 0; k <= n; k++ {
		var next []item
		for i := 0; i < len(sets[k]); i++ {
			it := sets[k][i]
			if it.dot == len(c.R[it.rule]) {
				for _, w := range sets[it.from] {
					if w.dot < len(c.R[w.rule]) && c.R[w.rule][w.dot] == c.L[it.rule] {
						put(k, item{w.rule, w.dot + 1, w.from})
					}
				}
				continue
			}
			s := c.R[it.rule][it.dot]
			if s >= c.N {
				if k < n && in[k] == s {
					next = append(next, item{it.rule, it.dot + 1, it.from})
				}
				continue
			}
			for _, r := range c.Rules[s] {
				put(k, item{r, 0, k})
			}
			if nl[s] {
				put(k, item{it.rule, it.dot + 1, it.from})
			}
		}
		for _, it := range next {
			put(k+1, it)
		}
	}
	for _, it := range sets[n] {
		if it.from == 0 && c.L[it.rule] == 0 && it.dot == len(c.R[it.rule]) {
			return true
		}
	}
	return false
}
