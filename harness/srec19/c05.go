package srec19

// C05: an error is returned exactly when two data bytes have the same address.

//verif:run C05 quick cpu=1 n=2 len=2 reach=overlap,disjoint
//verif:run C05 quick cpu=2 n=3 len=1 reach=overlap,disjoint
//verif:run C05 quick cpu=3 n=3 len=1 reach=overlap,disjoint
//verif:run C05 quick cpu=4 n=4 len=1 reach=overlap,disjoint
//verif:run C05 thorough cpu=2 n=5 len=1 reach=overlap,disjoint
//verif:run C05 thorough cpu=2 n=3 len=2 reach=overlap,disjoint
func VerifH_srecOverlap() {
	recs, exp := verifImage(verifParam("n"), verifParam("len"))
	recs = append(recs, verifEOF)
	h, err := ParseFromFile(verifFile("f.s19", verifText(recs, "\n", true)))
	if verifDistinct(exp) {
		verifReach("disjoint")
		verifAssert(err == nil, "a file without overlapping addresses is rejected")
		verifSame(h, exp)
	} else {
		verifReach("overlap")
		verifAssert(err != nil, "overlapping addresses are not reported")
	}
}
