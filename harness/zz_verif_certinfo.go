package apkverifier

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"math/big"
	"time"

	"github.com/avast/apkverifier/internal/vf"
)

// ---- P24

// zzMoment is a time before 2020 or after 2100, so that it does not matter when the check runs.
func zzMoment(name string) (time.Time, int64) {
	d := vf.I64(name)
	vf.Assume(vf.And(d > -62135596800, d < 253402300800)) // years 1 to 9999 around 1970
	vf.Assume(vf.Or(d < 1577836800, d > 4102444800))
	return time.Unix(d, 0).UTC(), d
}

type zzCand struct {
	c        *x509.Certificate
	from, to int64
}

func (a zzCand) valid(now int64) bool { return vf.And(a.from < now, a.to > now) }

// Two or three certificates in any order.
func VF_P24_best() {
	now := time.Now().Unix()
	n := 1 + vf.Choice("chains", 2+vf.Tier())
	var cs []zzCand
	for i := 0; i < n; i++ {
		x := &x509.Certificate{Raw: append(vf.Bytes("raw", 1), byte(i)), SerialNumber: big.NewInt(int64(i))}
		c := zzCand{c: x}
		x.SignatureAlgorithm = x509.SignatureAlgorithm(vf.Int("algorithm", 0, 16))
		x.NotBefore, c.from = zzMoment("from")
		x.NotAfter, c.to = zzMoment("to")
		cs = append(cs, c)
	}
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	pick := func(perm []int) (*CertInfo, *x509.Certificate) {
		var chains [][]*x509.Certificate
		for _, i := range perm {
			if i < n {
				chains = append(chains, []*x509.Certificate{cs[i].c})
			}
		}
		chains[0] = append(chains[0], &x509.Certificate{Raw: []byte{0xff, 0xff, 0xff}, SignatureAlgorithm: 99}) // an issuer
		return PickBestApkCert(chains)
	}
	ci, best := pick(perms[0])
	b := -1
	for i := range cs {
		if cs[i].c == best {
			b = i
		}
	}
	vf.Assert(b >= 0, "the best certificate is not the first one of a chain")
	if b < 0 {
		return
	}
	for i := range cs {
		c := cs[i]
		vf.Assert(best.SignatureAlgorithm >= c.c.SignatureAlgorithm, "a certificate with an older algorithm is preferred")
		vf.Assert(vf.Or(best.SignatureAlgorithm != c.c.SignatureAlgorithm, vf.Or(cs[b].valid(now), !c.valid(now))), "an expired or future certificate is preferred to one valid now")
	}
	vf.Assert(ci.Sha256 == hex.EncodeToString(vf.Digest(vf.SHA256, best.Raw)) && ci.ValidFrom.Equal(best.NotBefore), "the information is not the one of the certificate")
	if n > 1 {
		_, again := pick(perms[1+vf.Choice("order", 5)])
		vf.Assert(again == best, "the choice depends on the order of the chains")
	}
	vf.Cover("done")
}

// The printed fields.
func VF_P24_fields() {
	c := &x509.Certificate{Raw: vf.Bytes("raw", []int{0, 3, 1, 2}[vf.Choice("length", 2+2*vf.Tier())]), SerialNumber: new(big.Int).SetBytes(vf.Bytes("serial", 3))}
	c.NotBefore, _ = zzMoment("from")
	c.NotAfter, _ = zzMoment("to")
	algs := []x509.SignatureAlgorithm{x509.SHA1WithRSA, x509.SHA256WithRSA, x509.ECDSAWithSHA256, x509.DSAWithSHA1}
	names := []string{"SHA1-RSA", "SHA256-RSA", "ECDSA-SHA256", "DSA-SHA1"}
	a := vf.Choice("algorithm", 4)
	c.SignatureAlgorithm = algs[a]
	name := func(tag string) (pkix.Name, string) {
		var n pkix.Name
		var s string
		most, odd, count := vf.Choice(tag+" values", 3), vf.Choice(tag+" odd one", 5), vf.Choice(tag+" values of it", 3)
		for i, f := range []struct {
			key string
			to  *[]string
		}{{"C", &n.Country}, {"ST", &n.Province}, {"L", &n.Locality}, {"O", &n.Organization}, {"OU", &n.OrganizationalUnit}} {
			k := most
			if i == odd {
				k = count
			}
			if vf.Tier() > 0 && i == (odd+1)%5 {
				k = vf.Choice(tag+" values of the next", 3)
			}
			if k == 0 {
				continue
			}
			if s != "" {
				s += ", "
			}
			s += f.key + "="
			for j := 0; j < k; j++ {
				v := string(vf.Bytes(tag, 1)) + string([]byte{byte('0' + i)})
				*f.to = append(*f.to, v)
				if j > 0 {
					s += ";"
				}
				s += v
			}
		}
		if vf.Choice(tag+" CN", 2) == 1 {
			n.CommonName = string(vf.Bytes(tag, 2))
			if s != "" {
				s += ", "
			}
			s += "CN=" + n.CommonName
		}
		return n, s
	}
	var issuer, subject string
	if vf.Choice("name", 2) == 0 {
		c.Issuer, issuer = name("issuer")
		c.Subject.CommonName, subject = "x", "CN=x"
	} else {
		c.Subject, subject = name("subject")
	}
	ci := NewCertInfo(c)
	vf.Assert(ci.Md5 == hex.EncodeToString(vf.Digest(vf.MD5, c.Raw)), "the MD5 fingerprint is not the certificate's")
	vf.Assert(ci.Sha1 == hex.EncodeToString(vf.Digest(vf.SHA1, c.Raw)), "the SHA-1 fingerprint is not the certificate's")
	vf.Assert(ci.Sha256 == hex.EncodeToString(vf.Digest(vf.SHA256, c.Raw)), "the SHA-256 fingerprint is not the certificate's")
	vf.Assert(vf.And(ci.ValidFrom.Equal(c.NotBefore), ci.ValidTo.Equal(c.NotAfter)), "the validity is not the certificate's")
	vf.Assert(ci.Issuer == issuer && ci.Subject == subject, "the names are not the certificate's")
	vf.Assert(ci.SignatureAlgorithm == names[a] && ci.SerialNumber.Cmp(c.SerialNumber) == 0, "the algorithm or serial number is not the certificate's")
	vf.Cover("done")
}

// No chains.
func VF_P24_none() {
	var chains [][]*x509.Certificate
	if vf.Choice("empty", 2) == 1 {
		chains = [][]*x509.Certificate{}
	}
	ci, c := PickBestApkCert(chains)
	vf.Assert(ci == nil && c == nil, "a certificate is made up")
	vf.Cover("done")
}
