//go:build go1.21

package main

import "crypto/tls"

var tlsCerts = map[string]*tls.Certificate{}

// badCerts are certificates with which no server may be taken for the configured one.
var badCerts = []string{"wronghost", "expired", "untrusted", "untrustedchain", "selfsigned", "cnonly", "client"}

func initTLS() {
	for n, p := range map[string]string{"good": goodPEM, "wronghost": wrongPEM, "expired": expiredPEM, "untrusted": untrustedPEM,
		"untrustedchain": untrustedPEM + rogueCAPEM, "selfsigned": selfPEM, "cnonly": cnonlyPEM, "client": clientPEM} {
		c, err := tls.X509KeyPair([]byte(p), []byte(keyPEM))
		if err != nil {
			panic(err)
		}
		tlsCerts[n] = &c
	}
}

func serverTLS(kind string) *tls.Config {
	return &tls.Config{Certificates: []tls.Certificate{*tlsCerts[kind]}, SessionTicketsDisabled: true}
}
