// Command gencerts writes the fixed certificates of the simulated servers.
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"time"
)

func pemOf(t string, b []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: t, Bytes: b}))
}

func key() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}

var serial int64

var clientOnly bool

func cert(cn string, hosts []string, from, to int, ca bool, parent *x509.Certificate, pk, k *ecdsa.PrivateKey) (*x509.Certificate, string) {
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, DNSNames: hosts,
		NotBefore: time.Date(from, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(to, 1, 1, 0, 0, 0, 0, time.UTC),
		BasicConstraintsValid: true, IsCA: ca, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if to == 1995 { // half a day before simulated time begins
		t.NotAfter = time.Date(1999, 12, 31, 12, 0, 0, 0, time.UTC)
	}
	if clientOnly {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	}
	if parent == nil {
		parent, pk = t, k
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, pk)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	return c, pemOf("CERTIFICATE", der)
}

func main() {
	hosts := []string{"db1", "db2", "db3", "db4", "localhost", "db.example.com"}
	ck, ok, k := key(), key(), key()
	ca, caP := cert("Simulated CA", nil, 1990, 2100, true, nil, nil, ck)
	rogue, rogueP := cert("Rogue CA", nil, 1990, 2100, true, nil, nil, ok)
	_, good := cert("db1", hosts, 1990, 2100, false, ca, ck, k)
	_, wrong := cert("elsewhere", []string{"elsewhere.example.net", "db1.example.net", "xdb1", "b1", "db", "db11", "example.com", "*.example.net", "localhost.example.net"}, 1990, 2100, false, ca, ck, k)
	_, expired := cert("db1", hosts, 1980, 1995, false, ca, ck, k)
	_, untrusted := cert("db1", hosts, 1990, 2100, false, rogue, ok, k)
	_, self := cert("db1", hosts, 1990, 2100, false, nil, nil, k)
	_, cnonly := cert("db1", nil, 1990, 2100, false, ca, ck, k)
	clientOnly = true
	_, client := cert("db1", hosts, 1990, 2100, false, ca, ck, k)
	kb, _ := x509.MarshalECPrivateKey(k)
	out := "//go:build go1.21\n\npackage main\n\n// Fixed keys of the simulated servers, written by tools/gencerts.\n\n"
	for _, x := range []struct{ n, v string }{{"caPEM", caP}, {"keyPEM", pemOf("EC PRIVATE KEY", kb)}, {"goodPEM", good}, {"wrongPEM", wrong}, {"expiredPEM", expired}, {"untrustedPEM", untrusted}, {"rogueCAPEM", rogueP}, {"selfPEM", self}, {"cnonlyPEM", cnonly}, {"clientPEM", client}} {
		out += fmt.Sprintf("const %s = `%s`\n\n", x.n, x.v)
	}
	if err := os.WriteFile(os.Args[1], []byte(out), 0666); err != nil {
		panic(err)
	}
}
