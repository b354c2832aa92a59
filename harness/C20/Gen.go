package Gen

import (
	"fmt"
	"strconv"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	rt "github.com/jik18001/CTngV2/verifrt"
)

func vID(i int) string { return strconv.Itoa(i + 1) }

func vIn(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func vSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// vCheck looks at the contexts the participants start with. G, M, C, L are the addresses they have.
func vCheck(G, M, C, L []string, threshold, certs int) {
	n := len(G)
	var confs []*crypto.CryptoConfig
	all := append(append(append(append([]string{}, G...), M...), C...), L...)
	for i := 0; i < n; i++ {
		g := InitializeOneEntity("Gossiper", vID(i)).(*gossiper.GossiperContext)
		confs = append(confs, g.Gossiper_crypto_config)
		rt.Assert(":"+g.Gossiper_private_config.Port == fmt.Sprintf(":9%03d", i), "a gossiper listens on the port of its address")
		rt.Assert(g.Gossiper_private_config.Owner_URL == M[i], "a gossiper reports to its own monitor")
		peers := g.Gossiper_private_config.Connected_Gossipers
		ok := len(peers) == n-1
		for j, a := range G {
			ok = ok && vIn(a, peers) == (j != i)
		}
		rt.Assert(ok, "a gossiper is connected to all others and not to itself")
		rt.Assert(vSame(g.Gossiper_public_config.Gossiper_URLs, G) && vSame(g.Gossiper_public_config.Signer_URLs, M), "gossipers know all gossipers and monitors")
	}
	for i := 0; i < n; i++ {
		m := InitializeOneEntity("Monitor", vID(i)).(*monitor.MonitorContext)
		confs = append(confs, m.Monitor_crypto_config)
		p := m.Monitor_private_config
		rt.Assert(p.Signer == M[i] && ":"+p.Port == fmt.Sprintf(":8%03d", i), "a monitor has its address and listens on its port")
		rt.Assert(p.Gossiper_URL == G[i], "a monitor sends to its own gossiper")
		rt.Assert(vSame(p.CA_URLs, C) && vSame(p.Logger_URLs, L), "a monitor asks all CAs and loggers")
		rt.Assert(vSame(m.Monitor_public_config.All_CA_URLs, C) && vSame(m.Monitor_public_config.All_Logger_URLs, L), "a monitor knows all CAs and loggers")
	}
	for i := range C {
		c := InitializeOneEntity("CA", vID(i)).(*CA.CAContext)
		confs = append(confs, c.CA_crypto_config)
		p := c.CA_private_config
		rt.Assert(p.Signer == C[i] && ":"+p.Port == fmt.Sprintf(":6%03d", i), "a CA has its address and listens on its port")
		ok := len(p.Loggerlist) > 0
		for _, l := range p.Loggerlist {
			ok = ok && vIn(l, L)
		}
		rt.Assert(ok, "a CA sends its precertificates to loggers there are")
		rt.Assert(vSame(p.Gossiperlist, G) && vSame(p.Monitorlist, M), "a CA knows all gossipers and monitors")
		rt.Assert(vSame(c.CA_public_config.All_CA_URLs, C) && vSame(c.CA_public_config.All_Logger_URLs, L), "a CA knows all CAs and loggers")
		rt.Assert(p.Cert_per_period == certs, "a CA issues as many certificates as asked for")
	}
	for i := range L {
		l := InitializeOneEntity("Logger", vID(i)).(*Logger.LoggerContext)
		confs = append(confs, l.Logger_crypto_config)
		p := l.Logger_private_config
		rt.Assert(p.Signer == L[i] && ":"+p.Port == fmt.Sprintf(":7%03d", i), "a logger has its address and listens on its port")
		rt.Assert(vSame(p.Gossiperlist, G) && vSame(p.Monitorlist, M) && vSame(p.CAlist, C), "a logger knows all gossipers, monitors and CAs")
		rt.Assert(vSame(l.Logger_public_config.All_CA_URLs, C) && vSame(l.Logger_public_config.All_Logger_URLs, L), "a logger sends to all CAs")
	}
	rt.Assert(len(confs) == len(all), "everybody is there")
	some := make([]int, 0, len(all)) // of many, the first and last of each kind
	for i := range all {
		if len(all) < 30 || i == 0 || i == n-1 || i == n || i == 2*n-1 || i == 2*n+len(C)-1 || i == len(all)-1 {
			some = append(some, i)
		}
	}
	who := some[rt.Choice("who", len(some))]
	by := some[rt.Choice("by", len(some))]
	s, v := confs[who], confs[by]
	msg := rt.Str("msg")
	rt.Assert(s.SelfID.String() == all[who], "everybody goes by its address")
	rt.Assert(s.Threshold == threshold && s.N == n, "everybody knows threshold and number of gossipers")
	sig, err := s.Sign([]byte(msg))
	rt.Assert(err == nil, "everybody can sign")
	rt.Assert(sig.ID.String() == all[who] && v.Verify([]byte(msg), sig) == nil, "everybody can verify what anybody signed")
	other := sig
	other.ID = crypto.CTngID(all[by])
	rt.Assert((v.Verify([]byte(msg), other) == nil) == (who == by), "nobody can sign for somebody else")
	if who < n {
		f, err := s.ThresholdSign(msg)
		rt.Assert(err == nil && v.FragmentVerify(msg, f) == nil, "everybody can verify what a gossiper vouched for")
		f.ID = crypto.CTngID(G[by%n])
		rt.Assert((v.FragmentVerify(msg, f) == nil) == (who == by%n), "no gossiper can vouch for another")
	}
	var frags []crypto.SigFragment
	first := n - 1
	if n < 10 {
		first = rt.Choice("first", n)
	}
	for i := 0; i < threshold; i++ {
		f, _ := confs[(first+i)%n].ThresholdSign(msg)
		frags = append(frags, f)
	}
	agg, err := v.ThresholdAggregate(frags)
	rt.Assert(err == nil && v.ThresholdVerify(msg, agg) == nil, "everybody can verify what threshold many gossipers vouched for")
	rt.Reach("end")
}

// vSize picks the size of the network: gossipers, threshold, loggers, CAs.
func vSize() (n, k, l, c int) {
	sizes := [][4]int{{2, 2, 1, 2}, {3, 2, 2, 1}, {11, 2, 11, 12}, {4, 3, 3, 3}, {5, 3, 3, 4}, {9, 5, 4, 3}}
	s := sizes[rt.Choice("size", rt.Tier(3, 6))]
	return s[0], s[1], s[2], s[3]
}

func VerifC20Local() {
	n, k, l, c := vSize()
	Generateall(n, k, l, c, 7, 60, 60, "")
	G, M, C, L := Generate_all_list(n, c, l)
	vCheck(G, M, C, L, k, 7)
}

func VerifC20Mapped() {
	n, k, l, c := vSize()
	Generateall(n, k, l, c, 7, 60, 60, "")
	G, M, C, L := Generate_all_list(n, c, l)
	ip := IP_Json{map[int]string{}, map[int]string{}, map[int]string{}, map[int]string{}}
	put := func(m map[int]string, list []string, name string) {
		for i := range list {
			m[i] = rt.Str(name + vID(i))
			list[i] = m[i] + list[i][len(list[i])-5:]
		}
	}
	put(ip.Gossiper_ip_map, G, "G")
	put(ip.Monitor_ip_map, M, "M")
	put(ip.CA_ip_map, C, "C")
	put(ip.Logger_ip_map, L, "L")
	Write_IP_Json_to_files("ip/ip.json", ip)
	Map_all(c, l, n, Read_IP_Json_from_files("ip/ip.json"))
	vCheck(G, M, C, L, k, 7)
}
