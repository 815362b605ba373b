package clients

// Searches for client configurations that are accepted although unusable or refused although usable.

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func mkCert(t *testing.T, ca *x509.Certificate, caKey *ecdsa.PrivateKey, n int64) (*x509.Certificate, *ecdsa.PrivateKey, []byte, []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		t.Skip(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: fmt.Sprint("c", n)}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, BasicConstraintsValid: true, IsCA: ca == nil}
	p, pk := ca, caKey
	if ca == nil {
		p, pk = tpl, k
	}
	der, err := x509.CreateCertificate(crand.Reader, tpl, p, &k.PublicKey, pk)
	if err != nil {
		t.Skip(err)
	}
	c, _ := x509.ParseCertificate(der)
	kd, _ := x509.MarshalECPrivateKey(k)
	return c, k, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd})
}

func TestVerifP21(t *testing.T) {
	dir := t.TempDir()
	w := func(n string, d []byte) string {
		p := filepath.Join(dir, n)
		if err := os.WriteFile(p, d, 0o600); err != nil {
			t.Skip(err)
		}
		return p
	}
	ca, caKey, caPem, _ := mkCert(t, nil, nil, 1)
	_, _, otherPem, _ := mkCert(t, nil, nil, 2)
	_, _, crtPem, keyPem := mkCert(t, ca, caKey, 3)
	_, _, _, key2Pem := mkCert(t, ca, caKey, 4)
	junk := w("junk", []byte("not a certificate"))
	cas := map[string]string{"": "", "ca": w("ca", caPem), "other": w("other", otherPem), "junk": junk, "missing": filepath.Join(dir, "missing")}
	crts := map[string]string{"": "", "crt": w("crt", crtPem), "junk": junk, "missing": filepath.Join(dir, "missing")}
	keys := map[string]string{"": "", "key": w("key", keyPem), "otherkey": w("key2", key2Pem), "junk": junk, "missing": filepath.Join(dir, "missing")}
	cases := 0
	for _, url := range []string{"", "http://127.0.0.1:1"} {
		for can, caf := range cas {
			for crn, crf := range crts {
				for kn, kf := range keys {
					ok := url != "" && (can == "" && crn == "" && kn == "" || crn == "crt" && kn == "key" && (can == "" || can == "ca"))
					cfg := &Config{URL: url, CAFile: caf, ClientCRTFile: crf, ClientKeyFile: kf}
					err := func() (err error) {
						defer func() {
							if p := recover(); p != nil {
								t.Fatalf("VERIF-FAIL url %q ca %q crt %q key %q: panic %v", url, can, crn, kn, p)
							}
						}()
						return cfg.Validate()
					}()
					cases++
					if (err == nil) != ok {
						t.Fatalf("VERIF-FAIL url %q ca %q crt %q key %q: usable=%v but Validate returns %v", url, can, crn, kn, ok, err)
					}
					if ok && crn != "" && len(cfg.Cert().Certificate) == 0 {
						t.Fatalf("VERIF-FAIL url %q ca %q crt %q key %q: accepted but the certificate is not in use", url, can, crn, kn)
					}
					if ok && can != "" && cfg.RootCAs() == nil {
						t.Fatalf("VERIF-FAIL url %q ca %q crt %q key %q: accepted but the CA is not in use", url, can, crn, kn)
					}
					c, err2 := NewHTTPClient(&Config{URL: url, CAFile: caf, ClientCRTFile: crf, ClientKeyFile: kf})
					if (err2 == nil) != ok || (c == nil) == ok {
						t.Fatalf("VERIF-FAIL url %q ca %q crt %q key %q: usable=%v but NewHTTPClient returns %v, %v", url, can, crn, kn, ok, c, err2)
					}
				}
			}
		}
	}
	// a configuration that is validated again after its files changed
	for can, caf := range cas {
		cfg := &Config{URL: "http://127.0.0.1:1", CAFile: cas["ca"], ClientCRTFile: crts["crt"], ClientKeyFile: keys["key"]}
		if err := cfg.Validate(); err != nil {
			t.Fatalf("VERIF-FAIL a usable configuration is refused: %v", err)
		}
		cfg.CAFile = caf
		if err := cfg.Validate(); (err == nil) != (can == "" || can == "ca") {
			t.Fatalf("VERIF-FAIL ca changed to %q: Validate returns %v", can, err)
		}
		cases++
	}
	fmt.Println("VERIF-CASES clientconfigs", cases)
}
