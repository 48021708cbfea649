package chains

import "math/big"

// VP_C09_score records blocks with any 64-bit base targets and compares their cumulative scores with exact arithmetic.
func VP_C09_score() {
	n := vpParam("n", 1)
	bt := vpU64("gbt")
	t := vpNewTree(1, bt, 1)
	sum := vpScoreOf(bt)
	for i := 1; i <= n; i++ {
		bt = vpU64("bt")
		k := t.put(i-1, bt, uint64(i), 0, 0)
		own := vpScoreOf(bt)
		sum = new(big.Int).Add(sum, own)
		b, err := t.l.Block(t.nodes[k].id)
		vpNoErr(err, "an accepted block reads back")
		vpAssert(b.Score != nil && b.Score.Cmp(sum) == 0, "a block's score is its parent's plus floor(2^64 / base target)")
		vpReach("score")
	}
	g, err := t.l.Block(t.nodes[0].id)
	vpNoErr(err, "genesis reads back")
	vpAssert(g.Score.Cmp(t.nodes[0].score) == 0, "the parent's stored score is not altered")
	t.l.Close()
}
