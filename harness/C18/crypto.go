package crypto

import (
	"crypto/x509"

	rt "github.com/jik18001/CTngV2/verifrt"
	merkletree "github.com/txaty/go-merkletree"
)

// c18Certs: certificates with any subjects.
func c18Certs(n int) (out []x509.Certificate) {
	for i := 0; i < n; i++ {
		out = append(out, x509.Certificate{RawSubject: []byte("subject " + rt.Str("s"))})
	}
	return
}

// VerifC18Complete: every certificate of a tree has a proof that verifies, for its own place only.
func VerifC18Complete() {
	n := 2 + rt.Choice("n", rt.Tier(7, 16))
	certs := c18Certs(n)
	tree, err := GenerateMerkleTree(GenerateDataBlocks(certs))
	rt.Assert(err == nil && tree != nil, "there is a tree over any certificates")
	root, pois := GenerateRootHash(tree), GeneratePOI(tree)
	rt.Assert(len(pois) == n, "every certificate has a proof")
	for i := range certs {
		ok, err := VerifyPOI(root, pois[i], certs[i])
		rt.Assert(ok && err == nil, "the proof of a certificate of the tree verifies")
	}
	// the root is that of these certificates only
	k := rt.Choice("changed", n)
	other := append([]x509.Certificate(nil), certs...)
	other[k] = x509.Certificate{RawSubject: []byte("subject " + rt.Str("o"))}
	tree2, _ := GenerateMerkleTree(GenerateDataBlocks(other))
	same := string(GenerateRootHash(tree2)) == string(root)
	rt.Assert(same == (string(other[k].RawSubject) == string(certs[k].RawSubject)), "trees over different certificates have different roots")
	if same {
		rt.Reach("same")
	} else {
		rt.Reach("different")
	}
}

// VerifC18Sound: no proof of any making, of the depth of the tree, shows the inclusion of a certificate that is not in
// the tree. (Leaves and inner nodes are hashed alike, so that longer proofs can: it is the client that has to see to the
// depth, see C16.)
func VerifC18Sound() {
	n := 2 + rt.Choice("n", rt.Tier(4, 7))
	certs := c18Certs(n)
	tree, _ := GenerateMerkleTree(GenerateDataBlocks(certs))
	root := GenerateRootHash(tree)
	x := c18Certs(1)[0]
	p := &merkletree.Proof{Path: uint32(rt.U64("path"))}
	switch rt.Choice("making", 3) {
	case 0: // anything
		for i := len(tree.Proofs[0].Siblings); i > 0; i-- {
			p.Siblings = append(p.Siblings, []byte(rt.Str("sib")))
		}
	case 1: // a genuine proof, cut off or for another place
		q := tree.Proofs[rt.Choice("of", n)]
		p.Siblings = q.Siblings[:rt.Choice("k", len(q.Siblings)+1)]
	case 2: // a genuine proof with something else in it
		q := tree.Proofs[rt.Choice("of", n)]
		p.Path = q.Path
		p.Siblings = append(p.Siblings, q.Siblings...)
		p.Siblings[rt.Choice("at", len(q.Siblings))] = []byte(rt.Str("sib"))
	}
	ok, err := VerifyPOI(root, p, x)
	in := false
	for _, c := range certs {
		in = in || string(c.RawSubject) == string(x.RawSubject)
	}
	if ok && err == nil {
		rt.Assert(in, "a proof verifies only for a certificate of the tree")
		rt.Reach("verified")
	} else {
		rt.Reach("refused")
	}
	if rt.Choice("nil", 2) == 1 {
		ok, _ := VerifyPOI(root, nil, x)
		rt.Assert(!ok, "no proof, no inclusion")
	}
}
