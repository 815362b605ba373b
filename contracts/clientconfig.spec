# The configuration a client is built from.
package pkg/clients
import tls crypto/tls
import x509 crypto/x509
import pem encoding/pem
declare pairOK(crt string, key string) bool
declare pairOf(crt string, key string) tls.Certificate
declare fileOK(f string) bool
declare fileData(f string) []byte
declare pemCerts(d []byte) bool
declare pemBlock(d []byte) *pem.Block
declare certOK(d []byte) bool
declare certOf(d []byte) *x509.Certificate
declare signedBy(c *x509.Certificate, ca []byte) bool
declare poolData(p *x509.CertPool) []byte
ghost pools smap[int][]byte
extern crypto/tls:LoadX509KeyPair(crt, key) (c, err)
  ensures (err == nil) == pairOK(crt, key)
  ensures err == nil ==> c == pairOf(crt, key)
extern os:ReadFile(f) (d, err)
  ensures (err == nil) == fileOK(f)
  ensures err == nil ==> d == fileData(f)
extern crypto/x509:NewCertPool() (p)
  ensures p != nil && isfresh(p)
extern crypto/x509:*CertPool.AppendCertsFromPEM(p, d) (ok)
  requires p != nil
  set pools = upd(pools, p, d)
  ensures ok == pemCerts(d)
extern encoding/pem:Decode(d) (b, rest)
  ensures b == pemBlock(d)
extern crypto/x509:ParseCertificate(d) (c, err)
  ensures (err == nil) == certOK(d)
  ensures err == nil ==> c == certOf(d) && c != nil
extern crypto/x509:*Certificate.Verify(c, opts) (chains, err)
  requires c != nil
  ensures (err == nil) == signedBy(c, pools[opts.Roots])

define no_files(c *Config) bool = c.CAFile == "" && c.ClientKeyFile == "" && c.ClientCRTFile == ""
define usable_pair(c *Config) bool = c.ClientKeyFile != "" && c.ClientCRTFile != "" && pairOK(c.ClientCRTFile, c.ClientKeyFile)
define usable_ca(c *Config) bool = fileOK(c.CAFile) && pemCerts(fileData(c.CAFile)) && fileOK(c.ClientCRTFile) && pemBlock(fileData(c.ClientCRTFile)) != nil && certOK(pemBlock(fileData(c.ClientCRTFile)).Bytes) && signedBy(certOf(pemBlock(fileData(c.ClientCRTFile)).Bytes), fileData(c.CAFile))
func *Config.Validate(cfg) (err)
  property P21
  requires cfg != nil
  modifies cfg.rootCAs, cfg.cert, ghost pools
  ensures [exact] (err == nil) == (cfg.URL != "" && (no_files(cfg) || usable_pair(cfg) && (cfg.CAFile == "" || usable_ca(cfg))))
  ensures [rejected-unchanged] err != nil ==> *cfg.cert == old(*cfg.cert)
  ensures [pair-in-use] err == nil && !no_files(cfg) ==> *cfg.cert == pairOf(cfg.ClientCRTFile, cfg.ClientKeyFile)
  ensures [ca-in-use] err == nil && cfg.CAFile != "" ==> cfg.rootCAs != nil && pools[cfg.rootCAs] == fileData(cfg.CAFile)
  ensures [no-ca] cfg.CAFile == "" ==> cfg.rootCAs == old(cfg.rootCAs)
func *Config.RootCAs(cfg) (p)
  property P21
  requires cfg != nil
  ensures [the-pool] p == cfg.rootCAs
func *Config.Cert(cfg) (c)
  property P21
  requires cfg != nil
  ensures [the-pair] c == *cfg.cert
define good_config(c *Config) bool = c.URL != "" && (no_files(c) || usable_pair(c) && (c.CAFile == "" || usable_ca(c)))
func NewHTTPClient(cfg) (client, err)
  property P21
  requires cfg != nil
  modifies cfg.rootCAs, cfg.cert, ghost pools
  ensures [exact] (err == nil) == good_config(cfg)
  ensures [client-or-error] (client == nil) == (err != nil)
  ensures [pair-in-use] err == nil && !no_files(cfg) ==> *cfg.cert == pairOf(cfg.ClientCRTFile, cfg.ClientKeyFile)
package pkg/clients/locker_client
func NewLockClient(cfg) (client, err)
  property P21
  requires cfg != nil
  modifies cfg.rootCAs, cfg.cert, ghost pools
  ensures [exact] (err == nil) == good_config(cfg)
  ensures [client-or-error] (client == nil) == (err != nil)
  ensures [configured-url] err == nil ==> client.url == cfg.URL && client.client != nil
package pkg/clients/limiter_client
func NewLimiterClient(cfg) (client, err)
  property P21
  requires cfg != nil
  modifies cfg.rootCAs, cfg.cert, ghost pools
  ensures [exact] (err == nil) == good_config(cfg)
  ensures [client-or-error] (client == nil) == (err != nil)
  ensures [configured-url] err == nil ==> client.url == cfg.URL && client.client != nil
package pkg/clients/willow_client
func NewWillowClient(cfg) (client, err)
  property P21
  requires cfg != nil
  modifies cfg.rootCAs, cfg.cert, ghost pools
  ensures [exact] (err == nil) == good_config(cfg)
  ensures [client-or-error] (client == nil) == (err != nil)
  ensures [configured-url] err == nil ==> client.url == cfg.URL && client.client != nil
