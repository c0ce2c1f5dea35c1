package h

import "verif/harness/nd"

// C01_Track: a file with one MTrk chunk of up to 7 arbitrary bytes.
func C01_Track() {
	n := nd.Choose(8)
	smf, err := decode(cat(header(0, 1, 96), chunk("MTrk", symBytes(n))))
	nd.Assert((smf != nil) != (err != nil), "either a file or an error")
	if err == nil {
		nd.Observe("n", len(smf.Tracks[0].Events))
		nd.Reach("ok")
	} else {
		nd.Reach("err")
	}
}

// C01_File: a whole file of up to 40 arbitrary bytes whose chunk lengths are below 16.
func C01_File() {
	n := nd.Choose(41)
	b := symBytes(n)
	// a declared chunk length of up to 4 GB is allocated before it is read: lengths are bounded
	for _, at := range []int{4, 18, 22, 26, 30} {
		if at+4 <= n {
			nd.Assume(nd.Or(at == 18, nd.And(b[at] == 0, b[at+1] == 0, b[at+2] == 0, b[at+3] < 16)))
		}
	}
	smf, err := decode(b)
	nd.Assert((smf != nil) != (err != nil), "either a file or an error")
	nd.Observe("n", n, err == nil)
	nd.Reach("end")
}
