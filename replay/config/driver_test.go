package config

// Searches for settings that are accepted although inconsistent, refused although consistent, or not taken from the environment.

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

type setting struct{ flag, env, def string }

var services = map[string][]setting{
	"locker":  {{"log-level", "LOCKER_LOG_LEVEL", "info"}, {"port", "LOCKER_PORT", "8083"}, {"server-ca", "LOCKER_SERVER_CA", ""}, {"server-key", "LOCKER_SERVER_KEY", ""}, {"server-crt", "LOCKER_SERVER_CRT", ""}},
	"limiter": {{"log-level", "LOG_LEVEL", "info"}, {"port", "LIMITER_PORT", "8082"}, {"server-ca", "LIMITER_SERVER_CA", ""}, {"server-key", "LIMITER_SERVER_KEY", ""}, {"server-crt", "LIMITER_SERVER_CRT", ""}, {"locker-url", "LIMITER_LOCKER_URL", ""}, {"locker-client-ca", "LIMITER_LOCKER_CA", ""}, {"locker-client-key", "LIMITER_LOCKER_CLIENT_KEY", ""}, {"locker-client-crt", "LIMITER_LOCKER_CLIENT_CRT", ""}},
	"willow":  {{"log-level", "LOG_LEVEL", "info"}, {"port", "WILLOW_PORT", "8080"}, {"server-ca", "WILLOW_CA", ""}, {"server-key", "WILLOW_SERVER_KEY", ""}, {"server-crt", "WILLOW_SERVER_CRT", ""}, {"limiter-url", "WILLOW_LIMITER_URL", ""}, {"limiter-client-ca", "WILLOW_LIMITER_CA", ""}, {"limiter-client-key", "WILLOW_LIMITER_CLIENT_KEY", ""}, {"limiter-client-crt", "WILLOW_LIMITER_CLIENT_CRT", ""}, {"storage-type", "STORAGE_TYPE", "memory"}},
}

func get(svc string, l *LockerConfig, m *LimiterConfig, w *WillowConfig, f string) *string {
	switch svc {
	case "locker":
		return map[string]*string{"log-level": l.logLevel, "port": l.Port, "server-ca": l.ServerCA, "server-key": l.ServerKey, "server-crt": l.ServerCRT}[f]
	case "limiter":
		return map[string]*string{"log-level": m.logLevel, "port": m.LimiterPort, "server-ca": m.ServerCA, "server-key": m.ServerKey, "server-crt": m.ServerCRT, "locker-url": m.LockerURL, "locker-client-ca": m.LockerClientCA, "locker-client-key": m.LockerClientKey, "locker-client-crt": m.LockerClientCRT}[f]
	}
	return map[string]*string{"log-level": w.logLevel, "port": w.Port, "server-ca": w.ServerCA, "server-key": w.ServerKey, "server-crt": w.ServerCRT, "limiter-url": w.LimiterURL, "limiter-client-ca": w.LimiterClientCA, "limiter-client-key": w.LimiterClientKey, "limiter-client-crt": w.LimiterClientCRT, "storage-type": w.StorageConfig.Type}[f]
}

func TestVerifP21(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	vals := map[string][]string{
		"log-level":    {"info", "debug", "info", "debug", "Info", "warn", " ", "information"},
		"port":         {"8080", "0", "65535", "1", "65536", "-1", "70000", "http", "80 ", "9999999999999999999999"},
		"storage-type": {"memory", "memory", "memory", "disk", "Memory"},
	}
	cases := 0
	for i := 0; i < 60000; i++ {
		svc := []string{"locker", "limiter", "willow"}[i%3]
		var args, env []string
		want := map[string]string{}
		pick := func(s setting) string {
			if v, ok := vals[s.flag]; ok {
				if r.Intn(3) > 0 {
					return v[0]
				}
				return v[r.Intn(len(v))]
			}
			return fmt.Sprintf("/%s/%d", s.flag, r.Intn(10))
		}
		for _, s := range services[svc] {
			want[s.flag] = s.def
			p := 2
			if strings.HasPrefix(s.flag, "server-k") || strings.HasPrefix(s.flag, "server-cr") {
				p = 3
			}
			if r.Intn(p+1) > 1 {
				v := pick(s)
				args = append(args, "-"+s.flag, v)
				want[s.flag] = v
			}
			if r.Intn(4) == 0 {
				v := pick(s)
				env = append(env, s.env, v)
				want[s.flag] = v
			}
		}
		insecure := false
		if r.Intn(2) == 0 {
			args = append(args, "-insecure-http")
			insecure = true
		}
		if r.Intn(4) == 0 {
			v := []string{"true", "false", "TRUE", "1"}[r.Intn(4)]
			env = append(env, strings.ToUpper(svc)+"_INSECURE_HTTP", v)
			if v == "true" || svc == "limiter" && v == "TRUE" {
				insecure = true
			}
		}
		if insecure && r.Intn(2) == 0 { // mostly consistent
			var a2 []string
			for k := 0; k < len(args); k++ {
				if strings.HasPrefix(args[k], "-server-") {
					want[args[k][1:]] = ""
					k++
					continue
				}
				a2 = append(a2, args[k])
			}
			args = a2
			for k := 0; k < len(env); k += 2 {
				for _, s := range services[svc] {
					if s.env == env[k] && strings.HasPrefix(s.flag, "server-") {
						want[s.flag] = env[k+1]
					}
				}
			}
		}
		timeout, terr := 5*time.Second, false
		if svc == "locker" {
			if r.Intn(3) == 0 {
				timeout = []time.Duration{time.Second, 0, -time.Second, time.Nanosecond, 10 * time.Second, time.Hour}[r.Intn(6)]
				args = append(args, "-lock-default-timeout", timeout.String())
			}
			if r.Intn(5) == 0 {
				v := []string{"3s", "0s", "-1s", "soon", "30s", "1h1s"}[r.Intn(6)]
				env = append(env, "LOCKER_LOCK_DEFAULT_TIMEOUT", v)
				if d, err := time.ParseDuration(v); err != nil {
					terr = true
				} else {
					timeout = d
				}
			}
		}
		for k := 0; k < len(env); k += 2 {
			os.Setenv(env[k], env[k+1])
		}
		l, m, w, err, pan := start(svc, args)
		for k := 0; k < len(env); k += 2 {
			os.Unsetenv(env[k])
		}
		cases++
		if pan != nil {
			t.Fatalf("VERIF-FAIL %s args %q env %q: panic %v", svc, args, env, pan)
		}
		port, perr := strconv.Atoi(want["port"])
		ok := (want["log-level"] == "info" || want["log-level"] == "debug") && perr == nil && 0 <= port && port <= 65535 && !terr && timeout > 0
		if insecure {
			ok = ok && want["server-ca"] == "" && want["server-key"] == "" && want["server-crt"] == ""
		} else {
			ok = ok && want["server-key"] != "" && want["server-crt"] != ""
		}
		if svc == "willow" {
			ok = ok && want["storage-type"] == "memory"
		}
		if ok != (err == nil) {
			t.Fatalf("VERIF-FAIL %s args %q env %q: consistent=%v but the result is %v", svc, args, env, ok, err)
		}
		if err != nil {
			if l != nil || m != nil || w != nil {
				t.Fatalf("VERIF-FAIL %s args %q env %q: a configuration together with the error %v", svc, args, env, err)
			}
			continue
		}
		for _, s := range services[svc] {
			p := get(svc, l, m, w, s.flag)
			if p == nil || *p != want[s.flag] {
				t.Fatalf("VERIF-FAIL %s args %q env %q: %s should be %q", svc, args, env, s.flag, want[s.flag])
			}
		}
		var ins bool
		switch svc {
		case "locker":
			ins = *l.InsecureHttp
			if *l.LockDefaultTimeout != timeout {
				t.Fatalf("VERIF-FAIL locker args %q env %q: the default lock timeout is %v", args, env, *l.LockDefaultTimeout)
			}
		case "limiter":
			ins = *m.InsecureHttp
		default:
			ins = *w.InsecureHttp
		}
		if ins != insecure {
			t.Fatalf("VERIF-FAIL %s args %q env %q: insecure-http is %v", svc, args, env, ins)
		}
	}
	fmt.Println("VERIF-CASES configurations", cases)
}

func start(svc string, args []string) (l *LockerConfig, m *LimiterConfig, w *WillowConfig, err error, pan any) {
	defer func() { pan = recover() }()
	switch svc {
	case "locker":
		l, err = Locker(args)
	case "limiter":
		m, err = Limiter(args)
	default:
		w, err = Willow(args)
	}
	return
}
