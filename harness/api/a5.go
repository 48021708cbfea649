package api

// vpPaths are all endpoints.
var vpPaths = []string{
	"/peers/all", "/peers/friendly", "/connections", "/heads", "/leashes", "/status", "/forks", "/active-forks",
	"/fork/52.0.0.1", "/fork/52.0.0.1/generators/0", "/fork/52.0.0.1/generators/2", "/fork/52.0.0.2", "/fork/52.0.0.2/generators/1",
}

// VP_A05 lets one read of the storage fail during any request.
func VP_A05() {
	s := vpState(vpParam("peers", 2))
	path := vpPaths[vpInt("path", 0, len(vpPaths)-1)]
	query := ""
	if (path == "/forks" || path == "/active-forks") && vpBool("listed") {
		query = "peers=" + vpAddr(0).String()
	}
	vpReadFault(-1)
	want := s.get(path, query)
	k := vpInt("read", 0, vpReads()-1)
	vpReadFault(k)
	got := s.get(path, query)
	hit := vpReads() > k
	vpReadFault(-1)
	vpAssume(hit)
	if got.code == 500 {
		vpReach("reported")
	} else {
		vpAssert(got.code == want.code && string(got.body) == string(want.body), "a failed read does not change an answer")
		vpReach("unaffected")
	}
	again := s.get(path, query)
	vpAssert(again.code == want.code && string(again.body) == string(want.body), "the answer is the same after a failure")
}
