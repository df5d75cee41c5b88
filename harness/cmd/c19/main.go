// C19: the round-robin transport spreads requests evenly and survives eviction.
package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NVIDIA/vdisc/pkg/httputil"

	"vdiscverif/mon"
)

// network answers every request with the address it was dialled for.
type network struct {
	r     *mon.Run
	label string
	delay func()

	mu      sync.Mutex
	names   map[string][]string // what a name resolves to
	lookups map[string]int
	dials   map[string]int
	bad     string
}

func (n *network) lookup(host string) ([]string, error) {
	n.delay()
	n.mu.Lock()
	defer n.mu.Unlock()
	n.lookups[host]++
	a, ok := n.names[host]
	if strings.HasPrefix(host, "empty") {
		return []string{}, nil // an answer without addresses
	}
	if !ok {
		return nil, errors.New("no such host " + host)
	}
	return append([]string(nil), a...), nil
}

func (n *network) dial(ctx context.Context, nw, addr string) (net.Conn, error) {
	n.delay()
	h, port, err := net.SplitHostPort(addr)
	if err != nil || (nw != "tcp" && nw != "tcp4" && nw != "tcp6") {
		n.mu.Lock()
		n.bad = fmt.Sprintf("dialled %q %q: %v", nw, addr, err)
		n.mu.Unlock()
		return nil, errors.New("bad address")
	}
	if ip := net.ParseIP(strings.SplitN(h, "%", 2)[0]); ip == nil {
		n.mu.Lock()
		n.bad = fmt.Sprintf("dialled %q, which is no address", addr)
		n.mu.Unlock()
		return nil, errors.New("bad address")
	}
	n.mu.Lock()
	n.dials[h]++
	n.mu.Unlock()
	a, b := net.Pipe()
	go func() {
		defer b.Close()
		br := bufio.NewReader(b)
		for {
			req, err := http.ReadRequest(br)
			if err != nil {
				return
			}
			ioutil.ReadAll(req.Body)
			body := h + " " + port + " " + req.Host + " " + req.URL.Path
			fmt.Fprintf(b, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
		}
	}()
	return a, nil
}

func addresses(i, n int) []string {
	var out []string
	for k := 0; k < n; k++ {
		switch (i + k) % 3 {
		case 0:
			out = append(out, fmt.Sprintf("10.%d.%d.%d", i%250, k/250, k%250+1))
		case 1:
			out = append(out, fmt.Sprintf("2001:db8::%x:%x", i%60000+1, k+1))
		default:
			out = append(out, fmt.Sprintf("fe80::%x:%x%%eth0", i%60000+1, k+1))
		}
	}
	return out
}

func main() {
	mon.Main("C19", "distinct (addresses, hosts, table size, threads) request histories in which every request's address was recorded", func(r *mon.Run) {
		r.Parallel(r.N(300, 6000), 0, func(i int) { one(r, i) })
		r.Parallel(r.N(60, 1000), 4, func(i int) { hosts(r, i) })
		loopback(r)
		r.Need("requests", 3000)
		r.Need("windows judged", 400)
		r.Need("concurrent batches judged", 30)
		r.Need("hosts first met at the same time", 50)
		r.Need("requests to hosts that had been evicted", 100)
		r.Need("requests to a name that does not resolve", 100)
		r.Assume("the addresses a name resolves to are distinct; the periodic renewal after several minutes is not awaited")
	})
}

// get makes a request and returns the address that answered.
func get(rt http.RoundTripper, host, port string) (ip string, got string, err error) {
	req, err := http.NewRequest("GET", "http://"+host+port+"/p", nil)
	if err != nil {
		panic(err)
	}
	resp, err := rt.RoundTrip(req)
	if err != nil {
		return "", "", err
	}
	b, err := ioutil.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		return "", "", err
	}
	got = string(b)
	return strings.SplitN(got, " ", 2)[0], got, nil
}

func newNetwork(r *mon.Run) *network {
	return &network{r: r, delay: func() {}, names: map[string][]string{}, lookups: map[string]int{}, dials: map[string]int{}}
}

func (n *network) check() bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.bad != "" {
		n.r.Violate("dial", "%s: %s", n.label, n.bad)
		return false
	}
	return true
}

func one(r *mon.Run, i int) {
	rng := r.Rng("one", i)
	n := newNetwork(r)
	cnt := []int{1, 2, 3, 4, 5, 7, 8, 16, 33}[rng.Intn(9)]
	host := fmt.Sprintf("host%d.example", i)
	port := []string{"", ":80", ":8080", ":1"}[rng.Intn(4)]
	addrs := addresses(i, cnt)
	n.names[host] = addrs
	threads := 1 + rng.Intn(8)
	n.label = fmt.Sprintf("host %d: %d addresses, port %q, %d threads", i, cnt, port, threads)
	defer r.Begin("%s", n.label)()
	rt := httputil.NewRoundRobinTransport(httputil.RoundRobinTransportConfig{
		MaxHosts: rng.Intn(3) * 5, LookupHost: n.lookup, Dial: n.dial, MaxIdleConnsPerHost: rng.Intn(5), IdleConnTimeout: time.Minute})
	known := map[string]bool{}
	for _, a := range addrs {
		known[a] = true
	}
	judge := func(ip, got string, err error) bool {
		r.Eval()
		r.Count("requests", 1)
		if !n.check() {
			return false
		}
		if err != nil {
			r.Violate("failed", "%s: request failed: %v", n.label, err)
			return false
		}
		f := strings.Fields(got)
		wantPort := "80"
		if port != "" {
			wantPort = port[1:]
		}
		if !known[ip] || len(f) != 4 || f[1] != wantPort || f[2] != host+port || f[3] != "/p" {
			r.Violate("address", "%s: answered by %q", n.label, got)
			return false
		}
		return true
	}
	// one after another: every window of that many requests reaches all
	sequence := func(total int) bool {
		var seq []string
		for k := 0; k < total; k++ {
			ip, got, err := get(rt, host, port)
			if !judge(ip, got, err) {
				return false
			}
			seq = append(seq, ip)
		}
		for k := 0; k+cnt <= len(seq); k++ {
			seen := map[string]bool{}
			for _, ip := range seq[k : k+cnt] {
				seen[ip] = true
			}
			r.Count("windows judged", 1)
			if len(seen) != cnt {
				r.Violate("uneven", "%s: requests %d to %d reached only %d of %d addresses: %v", n.label, k, k+cnt-1, len(seen), cnt, seq[k:k+cnt])
				return false
			}
		}
		return true
	}
	// half of the hosts are first met by several requests at the same time
	if rng.Intn(2) == 0 {
		n.delay = mon.Delay(rng.Int63(), 200*time.Microsecond)
		r.Count("hosts first met at the same time", 1)
	} else if !sequence(cnt + rng.Intn(2*cnt+1)) {
		return
	}
	// at the same time: equally many each
	per := 1 + rng.Intn(4)
	var wg sync.WaitGroup
	var mu sync.Mutex
	hits := map[string]int{}
	var next int64
	gate := make(chan bool)
	for t := 0; t < threads; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for atomic.AddInt64(&next, 1) <= int64(per*cnt) {
				ip, got, err := get(rt, host, port)
				if !judge(ip, got, err) {
					return
				}
				mu.Lock()
				hits[ip]++
				mu.Unlock()
			}
		}()
	}
	close(gate)
	wg.Wait()
	if r.Failed() {
		return
	}
	r.Count("concurrent batches judged", 1)
	for _, a := range addrs {
		if hits[a] != per {
			r.Violate("uneven", "%s: of %d concurrent requests %d reached %s, want %d: %v", n.label, per*cnt, hits[a], a, per, hits)
			return
		}
	}
	if !sequence(cnt) {
		return
	}
	for _, name := range []string{"unknown.example", "empty.example", "unknown.example"} {
		var err error
		msg, bad := mon.Catch(func() { _, _, err = get(rt, name, port) })
		if bad {
			r.Violate("crash", "%s: request to %s: %s", n.label, name, msg)
			return
		}
		if err == nil {
			r.Violate("unresolved", "%s: a request to a name that does not resolve succeeded", n.label)
			return
		}
		r.Count("requests to a name that does not resolve", 1)
	}
	r.Distinct("main", fmt.Sprint(cnt, port, threads, per))
	if i < 3 {
		r.Sample("%s: %d requests per address at the same time", n.label, per)
	}
}

// hosts: more hosts than the table holds, at the same time.
func hosts(r *mon.Run, i int) {
	rng := r.Rng("hosts", i)
	n := newNetwork(r)
	num := 2 + rng.Intn(20)
	max := 1 + rng.Intn(6)
	threads := 1 + rng.Intn(8)
	n.label = fmt.Sprintf("table %d: %d hosts, room for %d, %d threads", i, num, max, threads)
	if rng.Intn(2) == 0 {
		n.delay = mon.Delay(rng.Int63(), 100*time.Microsecond)
	}
	defer r.Begin("%s", n.label)()
	owner := map[string]string{}
	for h := 0; h < num; h++ {
		host := fmt.Sprintf("h%d.example", h)
		n.names[host] = addresses(i*100+h, 1+rng.Intn(4))
		for _, a := range n.names[host] {
			owner[a] = host
		}
	}
	rt := httputil.NewRoundRobinTransport(httputil.RoundRobinTransportConfig{
		MaxHosts: max, LookupHost: n.lookup, Dial: n.dial, MaxIdleConnsPerHost: 2, IdleConnTimeout: time.Second})
	var wg sync.WaitGroup
	for t := 0; t < threads; t++ {
		rng := r.Rng("hosts", i, t)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 40 && !r.Failed(); k++ {
				host := fmt.Sprintf("h%d.example", rng.Intn(num))
				if rng.Intn(15) == 0 {
					var err error
					msg, bad := mon.Catch(func() { _, _, err = get(rt, "nowhere"+fmt.Sprint(rng.Intn(5)), "") })
					if bad {
						r.Violate("crash", "%s: %s", n.label, msg)
						return
					}
					if err == nil {
						r.Violate("unresolved", "%s: a request to a name that does not resolve succeeded", n.label)
					}
					r.Count("requests to a name that does not resolve", 1)
					continue
				}
				var ip, got string
				var err error
				msg, bad := mon.Catch(func() { ip, got, err = get(rt, host, "") })
				if bad {
					r.Violate("crash", "%s: %s", n.label, msg)
					return
				}
				r.Eval()
				r.Count("requests", 1)
				if !n.check() {
					return
				}
				if err != nil || owner[ip] != host {
					r.Violate("address", "%s: request to %s answered by %q, %v", n.label, host, got, err)
					return
				}
			}
		}()
	}
	wg.Wait()
	if r.Failed() {
		return
	}
	// a host that was evicted is looked up again and gets its new addresses
	if num > max {
		fill := func() bool {
			for h := 1; h <= max; h++ {
				if _, _, err := get(rt, fmt.Sprintf("h%d.example", h%num), ""); err != nil {
					r.Violate("failed", "%s: %v", n.label, err)
					return false
				}
			}
			return true
		}
		if num <= max+1 || !fill() {
			return
		}
		n.mu.Lock()
		now := []string{"192.0.2.7"}
		n.names["h0.example"] = now
		n.mu.Unlock()
		ip, _, err := get(rt, "h0.example", "")
		if err != nil || ip != now[0] {
			r.Violate("stale", "%s: a host that had been evicted was reached at %q (%v), it now is at %v", n.label, ip, err, now)
			return
		}
		r.Count("requests to hosts that had been evicted", 5)
	}
	n.mu.Lock()
	var looked []string
	for h, k := range n.lookups {
		looked = append(looked, fmt.Sprintf("%s:%d", h, k))
	}
	n.mu.Unlock()
	sort.Strings(looked)
	r.Distinct("main", fmt.Sprint("table", num, max, threads))
	if i < 2 {
		r.Sample("%s: lookups %v", n.label, mon.Trunc(strings.Join(looked, " "), 120))
	}
}

// loopback: the default dialer reaches real servers on IPv4 and IPv6.
func loopback(r *mon.Run) {
	for _, ip := range []string{"127.0.0.1", "::1", "127.0.0.2"} {
		ln, err := net.Listen("tcp", net.JoinHostPort(ip, "0"))
		if err != nil {
			r.Count("loopback addresses not available", 1)
			continue
		}
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { w.Write([]byte("real")) })}
		go srv.Serve(ln)
		_, port, _ := net.SplitHostPort(ln.Addr().String())
		addr := ip
		rt := httputil.NewRoundRobinTransport(httputil.RoundRobinTransportConfig{MaxHosts: 3, LookupHost: func(string) ([]string, error) { return []string{addr}, nil }})
		for k := 0; k < 5; k++ {
			_, got, err := get(rt, "real.example", ":"+port)
			if err != nil || got != "real" {
				r.Violate("loopback", "server at %s: %q, %v", ip, got, err)
				break
			}
			r.Count("requests to real servers", 1)
		}
		srv.Close()
	}
}
