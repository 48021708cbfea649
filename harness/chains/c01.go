package chains

// VP_C01_history delivers every sequence of n blocks and micro-blocks over every tree shape, with free base targets,
// timestamps and generators, and reads every block back.
func VP_C01_history() {
	n := vpParam("n", 3)
	gts := vpU64("gts")
	vpAssume(gts < 1<<47)
	t := vpNewTree(2, vpTarget("gbt", 3), gts)
	for i := 1; i <= n; i++ {
		peer := i % 2
		if i > 1 && vpInt("micro", 0, 1) == 1 {
			ref := vpInt("ref", 1, i-1)
			t.micro(ref, peer)
			vpReach("micro")
			continue
		}
		ts := vpU64("ts")
		vpAssume(ts < 1<<47)
		t.put(vpInt("parent", 0, i-1), vpTarget("bt", 3), ts, vpInt("gen", 0, 1), peer)
		vpReach("block")
	}
	for i := range t.nodes {
		t.checkBlock(i)
	}
	for i := range t.nodes {
		b, _ := t.l.Block(t.nodes[i].id)
		vpObserve("b", b.Height, b.Timestamp, b.Generator[:])
	}
	t.l.Close()
}
