# Service configuration: where each setting comes from, and which combinations are accepted.
package internal/config
import flag flag
import time time
declare envOf(name string) string
declare atoiOK(s string) bool
declare atoi(s string) int
declare durOK(s string) bool
declare dur(s string) time.Duration
declare flagName(p any) string
declare flagStr(args []string, name string, def string) string
declare flagBool(args []string, name string, def bool) bool
declare flagDur(args []string, name string, def time.Duration) time.Duration
declare lower(s string) string
declare defStr(p any) string
declare defBool(p any) bool
declare defDur(p any) time.Duration

extern os:Getenv(name) (v)
  ensures v == envOf(name)
extern strings:ToLower(s) (r)
  ensures r == lower(s)
extern strconv:Atoi(s) (n, err)
  ensures (err == nil) == atoiOK(s)
  ensures err == nil ==> n == atoi(s)
extern time:ParseDuration(s) (d, err)
  ensures (err == nil) == durOK(s)
  ensures err == nil ==> d == dur(s)
extern flag:NewFlagSet(name, how) (f)
  ensures f != nil && isfresh(f)
extern flag:*FlagSet.String(f, name, def, usage) (p)
  ensures p != nil && isfresh(p) && flagName(box(p, *string)) == name && defStr(box(p, *string)) == def && *p == def
extern flag:*FlagSet.Bool(f, name, def, usage) (p)
  ensures p != nil && isfresh(p) && flagName(box(p, *bool)) == name && defBool(box(p, *bool)) == def && *p == def
extern flag:*FlagSet.Duration(f, name, def, usage) (p)
  ensures p != nil && isfresh(p) && flagName(box(p, *time.Duration)) == name && defDur(box(p, *time.Duration)) == def && *p == def
extern flag:*FlagSet.Parse(f, args) (err)
  modifies all cells string, all cells bool, all cells time.Duration
  ensures err == nil ==> forall p *string {flagName(box(p, *string))} :: flagName(box(p, *string)) != "" ==> *p == flagStr(args, flagName(box(p, *string)), defStr(box(p, *string)))
  ensures err == nil ==> forall p *bool {flagName(box(p, *bool))} :: flagName(box(p, *bool)) != "" ==> *p == flagBool(args, flagName(box(p, *bool)), defBool(box(p, *bool)))
  ensures err == nil ==> forall p *time.Duration {flagName(box(p, *time.Duration))} :: flagName(box(p, *time.Duration)) != "" ==> *p == flagDur(args, flagName(box(p, *time.Duration)), defDur(box(p, *time.Duration)))

# the consistent settings
define known_level(l string) bool = l == "debug" || l == "info"
define a_port(p string) bool = atoiOK(p) && 0 <= atoi(p) && atoi(p) <= 65535
define tls_settings(insecure bool, ca string, key string, crt string) bool = insecure ? (ca == "" && key == "" && crt == "") : (key != "" && crt != "")
define from(env string, cur string) string = envOf(env) != "" ? envOf(env) : cur

# Locker
define locker_given(c *LockerConfig) bool = c != nil && c.logLevel != nil && c.Port != nil && c.ServerCA != nil && c.ServerKey != nil && c.ServerCRT != nil && c.InsecureHttp != nil && c.LockDefaultTimeout != nil
func *LockerConfig.validate(lc) (err)
  property P21
  requires locker_given(lc)
  ensures [exact] (err == nil) == (known_level(*lc.logLevel) && a_port(*lc.Port) && tls_settings(*lc.InsecureHttp, *lc.ServerCA, *lc.ServerKey, *lc.ServerCRT) && *lc.LockDefaultTimeout > 0)
func *LockerConfig.parseEnv(lc) (err)
  property P21
  option merge on
  requires locker_given(lc)
  modifies lc.logLevel, lc.Port, lc.ServerCA, lc.ServerKey, lc.ServerCRT, lc.InsecureHttp, lc.LockDefaultTimeout
  ensures [unreadable-timeout] (err == nil) == (envOf("LOCKER_LOCK_DEFAULT_TIMEOUT") == "" || durOK(envOf("LOCKER_LOCK_DEFAULT_TIMEOUT")))
  ensures [given] err == nil ==> locker_given(lc)
  ensures [log-level] err == nil ==> *lc.logLevel == from("LOCKER_LOG_LEVEL", old(*lc.logLevel))
  ensures [port] err == nil ==> *lc.Port == from("LOCKER_PORT", old(*lc.Port))
  ensures [server-ca] err == nil ==> *lc.ServerCA == from("LOCKER_SERVER_CA", old(*lc.ServerCA))
  ensures [server-key] err == nil ==> *lc.ServerKey == from("LOCKER_SERVER_KEY", old(*lc.ServerKey))
  ensures [server-crt] err == nil ==> *lc.ServerCRT == from("LOCKER_SERVER_CRT", old(*lc.ServerCRT))
  ensures [insecure] err == nil ==> *lc.InsecureHttp == (envOf("LOCKER_INSECURE_HTTP") == "true" || old(*lc.InsecureHttp))
  ensures [timeout] err == nil ==> *lc.LockDefaultTimeout == (envOf("LOCKER_LOCK_DEFAULT_TIMEOUT") == "" ? old(*lc.LockDefaultTimeout) : dur(envOf("LOCKER_LOCK_DEFAULT_TIMEOUT")))
func Locker(args) (cfg, err)
  property P21
  modifies all cells string, all cells bool, all cells time.Duration
  ensures [config-or-error] (cfg == nil) == (err != nil)
  ensures [given] err == nil ==> locker_given(cfg)
  ensures [consistent] err == nil ==> known_level(*cfg.logLevel) && a_port(*cfg.Port) && tls_settings(*cfg.InsecureHttp, *cfg.ServerCA, *cfg.ServerKey, *cfg.ServerCRT) && *cfg.LockDefaultTimeout > 0
  ensures [log-level] err == nil ==> *cfg.logLevel == from("LOCKER_LOG_LEVEL", flagStr(args, "log-level", "info"))
  ensures [port] err == nil ==> *cfg.Port == from("LOCKER_PORT", flagStr(args, "port", "8083"))
  ensures [server-ca] err == nil ==> *cfg.ServerCA == from("LOCKER_SERVER_CA", flagStr(args, "server-ca", ""))
  ensures [server-key] err == nil ==> *cfg.ServerKey == from("LOCKER_SERVER_KEY", flagStr(args, "server-key", ""))
  ensures [server-crt] err == nil ==> *cfg.ServerCRT == from("LOCKER_SERVER_CRT", flagStr(args, "server-crt", ""))
  ensures [insecure] err == nil ==> *cfg.InsecureHttp == (envOf("LOCKER_INSECURE_HTTP") == "true" || flagBool(args, "insecure-http", false))
  ensures [timeout] err == nil ==> *cfg.LockDefaultTimeout == (envOf("LOCKER_LOCK_DEFAULT_TIMEOUT") == "" ? flagDur(args, "lock-default-timeout", 5000000000) : dur(envOf("LOCKER_LOCK_DEFAULT_TIMEOUT")))
func *LockerConfig.LogLevel(lc) (l)
  property P21
  requires lc != nil && lc.logLevel != nil
  ensures [the-level] l == *lc.logLevel

# Limiter
define limiter_given(c *LimiterConfig) bool = c != nil && c.logLevel != nil && c.LimiterPort != nil && c.ServerCA != nil && c.ServerKey != nil && c.ServerCRT != nil && c.InsecureHttp != nil && c.LockerURL != nil && c.LockerClientCA != nil && c.LockerClientKey != nil && c.LockerClientCRT != nil
func *LimiterConfig.validate(lc) (err)
  property P21
  requires limiter_given(lc)
  ensures [exact] (err == nil) == (known_level(*lc.logLevel) && a_port(*lc.LimiterPort) && tls_settings(*lc.InsecureHttp, *lc.ServerCA, *lc.ServerKey, *lc.ServerCRT))
func *LimiterConfig.parseEnv(lc)
  property P21
  option merge on
  requires limiter_given(lc)
  modifies lc.logLevel, lc.LimiterPort, lc.ServerCA, lc.ServerKey, lc.ServerCRT, lc.InsecureHttp, lc.LockerURL, lc.LockerClientCA, lc.LockerClientKey, lc.LockerClientCRT
  ensures [given] limiter_given(lc)
  ensures [log-level] *lc.logLevel == from("LOG_LEVEL", old(*lc.logLevel))
  ensures [port] *lc.LimiterPort == from("LIMITER_PORT", old(*lc.LimiterPort))
  ensures [server-ca] *lc.ServerCA == from("LIMITER_SERVER_CA", old(*lc.ServerCA))
  ensures [server-key] *lc.ServerKey == from("LIMITER_SERVER_KEY", old(*lc.ServerKey))
  ensures [server-crt] *lc.ServerCRT == from("LIMITER_SERVER_CRT", old(*lc.ServerCRT))
  ensures [locker-url] *lc.LockerURL == from("LIMITER_LOCKER_URL", old(*lc.LockerURL))
  ensures [locker-ca] *lc.LockerClientCA == from("LIMITER_LOCKER_CA", old(*lc.LockerClientCA))
  ensures [locker-key] *lc.LockerClientKey == from("LIMITER_LOCKER_CLIENT_KEY", old(*lc.LockerClientKey))
  ensures [locker-crt] *lc.LockerClientCRT == from("LIMITER_LOCKER_CLIENT_CRT", old(*lc.LockerClientCRT))
  ensures [insecure] *lc.InsecureHttp == (envOf("LIMITER_INSECURE_HTTP") != "" && lower(envOf("LIMITER_INSECURE_HTTP")) == "true" || old(*lc.InsecureHttp))
func Limiter(args) (cfg, err)
  property P21
  modifies all cells string, all cells bool, all cells time.Duration
  ensures [config-or-error] (cfg == nil) == (err != nil)
  ensures [given] err == nil ==> limiter_given(cfg)
  ensures [consistent] err == nil ==> known_level(*cfg.logLevel) && a_port(*cfg.LimiterPort) && tls_settings(*cfg.InsecureHttp, *cfg.ServerCA, *cfg.ServerKey, *cfg.ServerCRT)
  ensures [log-level] err == nil ==> *cfg.logLevel == from("LOG_LEVEL", flagStr(args, "log-level", "info"))
  ensures [port] err == nil ==> *cfg.LimiterPort == from("LIMITER_PORT", flagStr(args, "port", "8082"))
  ensures [server-ca] err == nil ==> *cfg.ServerCA == from("LIMITER_SERVER_CA", flagStr(args, "server-ca", ""))
  ensures [server-key] err == nil ==> *cfg.ServerKey == from("LIMITER_SERVER_KEY", flagStr(args, "server-key", ""))
  ensures [server-crt] err == nil ==> *cfg.ServerCRT == from("LIMITER_SERVER_CRT", flagStr(args, "server-crt", ""))
  ensures [locker-url] err == nil ==> *cfg.LockerURL == from("LIMITER_LOCKER_URL", flagStr(args, "locker-url", ""))
  ensures [locker-ca] err == nil ==> *cfg.LockerClientCA == from("LIMITER_LOCKER_CA", flagStr(args, "locker-client-ca", ""))
  ensures [locker-key] err == nil ==> *cfg.LockerClientKey == from("LIMITER_LOCKER_CLIENT_KEY", flagStr(args, "locker-client-key", ""))
  ensures [locker-crt] err == nil ==> *cfg.LockerClientCRT == from("LIMITER_LOCKER_CLIENT_CRT", flagStr(args, "locker-client-crt", ""))
  ensures [insecure] err == nil ==> *cfg.InsecureHttp == (envOf("LIMITER_INSECURE_HTTP") != "" && lower(envOf("LIMITER_INSECURE_HTTP")) == "true" || flagBool(args, "insecure-http", false))
func *LimiterConfig.LogLevel(lc) (l)
  property P21
  requires lc != nil && lc.logLevel != nil
  ensures [the-level] l == *lc.logLevel

# Willow
define willow_given(c *WillowConfig) bool = c != nil && c.logLevel != nil && c.Port != nil && c.ServerCA != nil && c.ServerKey != nil && c.ServerCRT != nil && c.InsecureHttp != nil && c.LimiterURL != nil && c.LimiterClientCA != nil && c.LimiterClientKey != nil && c.LimiterClientCRT != nil && c.StorageConfig != nil && c.StorageConfig.Type != nil
func *WillowConfig.validate(wc) (err)
  property P21
  requires willow_given(wc)
  ensures [exact] (err == nil) == (known_level(*wc.logLevel) && a_port(*wc.Port) && tls_settings(*wc.InsecureHttp, *wc.ServerCA, *wc.ServerKey, *wc.ServerCRT) && *wc.StorageConfig.Type == MemoryStorage)
func *WillowConfig.parseEnv(wc) (err)
  property P21
  option merge on
  requires willow_given(wc)
  modifies wc.logLevel, wc.Port, wc.ServerCA, wc.ServerKey, wc.ServerCRT, wc.InsecureHttp, wc.LimiterURL, wc.LimiterClientCA, wc.LimiterClientKey, wc.LimiterClientCRT, wc.StorageConfig.Type
  ensures [no-error] err == nil
  ensures [given] willow_given(wc)
  ensures [log-level] *wc.logLevel == from("LOG_LEVEL", old(*wc.logLevel))
  ensures [port] *wc.Port == from("WILLOW_PORT", old(*wc.Port))
  ensures [server-ca] *wc.ServerCA == from("WILLOW_CA", old(*wc.ServerCA))
  ensures [server-key] *wc.ServerKey == from("WILLOW_SERVER_KEY", old(*wc.ServerKey))
  ensures [server-crt] *wc.ServerCRT == from("WILLOW_SERVER_CRT", old(*wc.ServerCRT))
  ensures [limiter-url] *wc.LimiterURL == from("WILLOW_LIMITER_URL", old(*wc.LimiterURL))
  ensures [limiter-ca] *wc.LimiterClientCA == from("WILLOW_LIMITER_CA", old(*wc.LimiterClientCA))
  ensures [limiter-key] *wc.LimiterClientKey == from("WILLOW_LIMITER_CLIENT_KEY", old(*wc.LimiterClientKey))
  ensures [limiter-crt] *wc.LimiterClientCRT == from("WILLOW_LIMITER_CLIENT_CRT", old(*wc.LimiterClientCRT))
  ensures [insecure] *wc.InsecureHttp == (envOf("WILLOW_INSECURE_HTTP") == "true" || old(*wc.InsecureHttp))
  ensures [storage] *wc.StorageConfig.Type == from("STORAGE_TYPE", old(*wc.StorageConfig.Type))
func Willow(args) (cfg, err)
  property P21
  modifies all cells string, all cells bool, all cells time.Duration
  ensures [config-or-error] (cfg == nil) == (err != nil)
  ensures [given] err == nil ==> willow_given(cfg)
  ensures [consistent] err == nil ==> known_level(*cfg.logLevel) && a_port(*cfg.Port) && tls_settings(*cfg.InsecureHttp, *cfg.ServerCA, *cfg.ServerKey, *cfg.ServerCRT) && *cfg.StorageConfig.Type == MemoryStorage
  ensures [log-level] err == nil ==> *cfg.logLevel == from("LOG_LEVEL", flagStr(args, "log-level", "info"))
  ensures [port] err == nil ==> *cfg.Port == from("WILLOW_PORT", flagStr(args, "port", "8080"))
  ensures [server-ca] err == nil ==> *cfg.ServerCA == from("WILLOW_CA", flagStr(args, "server-ca", ""))
  ensures [server-key] err == nil ==> *cfg.ServerKey == from("WILLOW_SERVER_KEY", flagStr(args, "server-key", ""))
  ensures [server-crt] err == nil ==> *cfg.ServerCRT == from("WILLOW_SERVER_CRT", flagStr(args, "server-crt", ""))
  ensures [limiter-url] err == nil ==> *cfg.LimiterURL == from("WILLOW_LIMITER_URL", flagStr(args, "limiter-url", ""))
  ensures [limiter-ca] err == nil ==> *cfg.LimiterClientCA == from("WILLOW_LIMITER_CA", flagStr(args, "limiter-client-ca", ""))
  ensures [limiter-key] err == nil ==> *cfg.LimiterClientKey == from("WILLOW_LIMITER_CLIENT_KEY", flagStr(args, "limiter-client-key", ""))
  ensures [limiter-crt] err == nil ==> *cfg.LimiterClientCRT == from("WILLOW_LIMITER_CLIENT_CRT", flagStr(args, "limiter-client-crt", ""))
  ensures [insecure] err == nil ==> *cfg.InsecureHttp == (envOf("WILLOW_INSECURE_HTTP") == "true" || flagBool(args, "insecure-http", false))
  ensures [storage] err == nil ==> *cfg.StorageConfig.Type == from("STORAGE_TYPE", flagStr(args, "storage-type", "memory"))
func *WillowConfig.LogLevel(wc) (l)
  property P21
  requires wc != nil && wc.logLevel != nil
  ensures [the-level] l == *wc.logLevel
