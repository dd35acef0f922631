package VPKG

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// gate is the only way out for the program: an HTTPS proxy that answers for
// the providers itself.
type gate struct {
	ln    net.Listener
	ca    *x509.Certificate
	caKey *ecdsa.PrivateKey
	file  string
	mu    sync.Mutex
	leaf  map[string]*tls.Certificate
	cl    *cloud
}

func newGate(dir string) *gate {
	g := &gate{leaf: map[string]*tls.Certificate{}, file: filepath.Join(dir, "ca.pem")}
	var err error
	must := func(e error) {
		if e != nil {
			panic(e)
		}
	}
	g.caKey, err = ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "test"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &g.caKey.PublicKey, g.caKey)
	must(err)
	g.ca, err = x509.ParseCertificate(der)
	must(err)
	must(os.WriteFile(g.file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644))
	g.ln, err = net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		for {
			cn, err := g.ln.Accept()
			if err != nil {
				return
			}
			go g.serve(cn)
		}
	}()
	return g
}

func (g *gate) cert(host string) *tls.Certificate {
	g.mu.Lock()
	defer g.mu.Unlock()
	if c := g.leaf[host]; c != nil {
		return c
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(g.leaf) + 2)), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(crand.Reader, t, g.ca, &g.caKey.PublicKey, g.caKey)
	if err != nil {
		panic(err)
	}
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: g.caKey}
	g.leaf[host] = c
	return c
}

func (g *gate) serve(cn net.Conn) {
	defer cn.Close()
	g.mu.Lock()
	cl := g.cl
	g.mu.Unlock()
	br := bufio.NewReader(cn)
	req, err := http.ReadRequest(br)
	if err != nil || cl == nil {
		return
	}
	if req.Method != "CONNECT" {
		cl.mu.Lock()
		cl.badSeen = append(cl.badSeen, "plain "+req.Method+" "+req.URL.String())
		cl.mu.Unlock()
		io.WriteString(cn, "HTTP/1.1 403 Forbidden\r\n\r\n")
		return
	}
	host, _, _ := net.SplitHostPort(req.Host)
	io.WriteString(cn, "HTTP/1.1 200 OK\r\n\r\n")
	tc := tls.Server(cn, &tls.Config{Certificates: []tls.Certificate{*g.cert(host)}})
	defer tc.Close()
	tr := bufio.NewReader(tc)
	for {
		req, err := http.ReadRequest(tr)
		if err != nil {
			return
		}
		body, err := io.ReadAll(req.Body)
		if err != nil {
			return
		}
		u := *req.URL
		u.Host = host
		cl.pause()
		w := httptest.NewRecorder()
		if cl.serve(w, req.Method, &u, req.Header, body) != nil {
			return // the connection breaks
		}
		cl.pause()
		res := w.Result()
		res.ContentLength = int64(w.Body.Len())
		if res.Write(tc) != nil {
			return
		}
	}
}

type ran struct {
	out  string
	code int
}

// run runs the real program against the gate.
func (g *gate) run(c *vC, cl *cloud, dir, stdin string, args ...string) ran {
	g.mu.Lock()
	g.cl = cl
	g.mu.Unlock()
	return tool(c, dir, stdin, []string{"HTTPS_PROXY=http://" + g.ln.Addr().String(), "SSL_CERT_FILE=" + g.file, "SSL_CERT_DIR=/nonexistent"}, args...)
}

func tool(c *vC, dir, stdin string, env []string, args ...string) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_BIN"), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	cmd.Env = append([]string{"VULTR_KEY=test", "HOME=" + scratch, "AWS_SHARED_CREDENTIALS_FILE=" + filepath.Join(scratch, "cred"), "AWS_CONFIG_FILE=" + filepath.Join(scratch, "none"), "AWS_EC2_METADATA_DISABLED=true", "GORACE=halt_on_error=1 exitcode=66", "PATH=/nonexistent"}, env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.WaitDelay = 3 * time.Second
	err := cmd.Run()
	vTick()
	what := "testbed " + strings.Join(args, " ")
	if ctx.Err() != nil {
		c.Fail("%s does not end; output so far: %s", what, tail(b.String()))
	}
	r := ran{b.String(), 0}
	if err != nil {
		r.code = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.code = e.ExitCode()
		}
	}
	if strings.Contains(r.out, "DATA RACE") {
		c.Fail("%s: data race: %s", what, head(r.out))
	}
	if strings.Contains(r.out, "goroutine ") && strings.Contains(r.out, "panic") {
		c.Fail("%s crashes: %s", what, head(r.out))
	}
	if r.code == -1 {
		c.Fail("%s: %v: %s", what, err, tail(r.out))
	}
	c.Seen("program_runs", 1)
	return r
}

func head(s string) string { return s[:vMin(len(s), 3000)] }
func tail(s string) string { return s[len(s)-vMin(len(s), 1500):] }

var theGate *gate

func useGate() *gate {
	if theGate == nil {
		theGate = newGate(sandbox())
	}
	return theGate
}

// agree makes a way of answering the confirmation question: flag, input,
// whether it agrees.
func agree(r *rand.Rand) (flag []string, in string, yes bool) {
	switch r.Intn(8) {
	case 0, 1:
		return []string{"-y"}, "", true
	case 2:
		return []string{"-y"}, "n\n", true
	case 3, 4:
		return nil, pick(r, "y\n", "Y\n"), true
	default:
		return nil, pick(r, "n\n", "N\n", "\n", "", "no\n", "q\n", "0\n"), false
	}
}

// commands runs the operations of the program that change something.
func commands(h *vH) {
	for i := 0; i < h.N(64, 640); i++ {
		h.Case(fmt.Sprintf("command-%d", i), func(c *vC) {
			g := useGate()
			cl := newCloud(rand.New(rand.NewSource(c.R.Int63())))
			price := pick(c.R, 80.0, 20.0)
			exp := cl.vplan(c.R, price)
			cl.fillVultr(c.R, c.R.Intn(30))
			cl.fillAWS(c.R, 5)
			var ids map[string]string
			cl.table, ids = imageTable(c.R, regionPool)
			flag, in, yes := agree(c.R)
			tag, targs := tagPool[c.R.Intn(5)], []string{}
			if c.R.Intn(4) == 0 {
				tag = "ouroboros" // the default
			} else {
				targs = []string{pick(c.R, "-t", "--t"), tag}
			}
			vendor, vargs := pick(c.R, "vultr", "aws"), []string{}
			if vendor == "aws" || c.R.Intn(2) == 0 {
				vargs = []string{"-vendor", vendor}
			}
			act := pick(c.R, "stop", "stop", "reboot", "start")
			if vendor == "aws" && act == "reboot" {
				act = "stop"
			}
			kind := "valid"
			switch c.R.Intn(12) {
			case 0:
				kind, tag, targs = "without tag", "", []string{"-t", ""}
			case 1:
				kind, act = "unknown action", pick(c.R, "destroy", "kill", "Stop", "sto", "-y")
			}
			count, loc := 1, ""
			parts := [][]string{flag, targs, vargs}
			if act == "start" {
				count = c.R.Intn(4)
				loc = pick(c.R, "", "us-", "new", "e", "TOKYO")
				parts = append(parts, []string{"-n", fmt.Sprint(count)}, []string{"-d", loc})
				if price != 80 || c.R.Intn(2) == 0 {
					parts = append(parts, []string{"-p", fmt.Sprint(price)})
				}
			}
			c.R.Shuffle(len(parts), func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })
			args := []string{"cluster", act}
			for _, p := range parts {
				args = append(args, p...)
			}
			what := fmt.Sprintf("testbed %q with input %q", args, in)
			res := g.run(c, cl, sandbox(), in, args...)
			if kind != "valid" {
				cl.quiet(c, what)
				if res.code == 0 {
					c.Fail("%s (%s) ends as if it had worked", what, kind)
				}
				c.Seen("refused", 1)
				c.Distinct("%s %s", kind, what)
				return
			}
			if !yes {
				cl.quiet(c, what)
				c.Seen("declined", 1)
				c.Distinct("declined %s", what)
				return
			}
			if res.code != 0 {
				c.Fail("%s fails with %d: %s", what, res.code, tail(res.out))
			}
			want := map[string]string{}
			switch vendor + " " + act {
			case "vultr stop", "vultr reboot":
				for _, s := range cl.vservers {
					if s.eligible(tag) {
						want[s.id] = s.String()
					}
				}
				if act == "stop" {
					once(c, what, cl.vdead, want)
					cl.quiet(c, what, "destroy")
				} else {
					once(c, what, cl.vboot, want)
					cl.quiet(c, what, "reboot")
				}
				c.Seen("program_servers", len(want))
			case "vultr start":
				checkCreated(c, what, asMaps(cl.created), exp(loc), count, tag)
				cl.quiet(c, what, "create")
				c.Seen("program_servers", len(cl.created))
			case "aws stop":
				for _, r := range cl.aregions {
					for _, x := range cl.ainst[r.name] {
						if r.usable() && x.tagged && x.tag == tag && x.code&255 == 16 {
							want[x.id] = fmt.Sprintf("%+v in %s", x, r.name)
						}
					}
				}
				once(c, what, cl.adead, want)
				cl.quiet(c, what, "terminate")
				c.Seen("program_servers", len(want))
			case "aws start":
				if count == 0 {
					return // what the provider makes of a request for none is its business
				}
				checkRuns(c, what, cl, loc, count, tag, ids)
				cl.quiet(c, what, "run", "group")
			}
			c.Seen("confirmed", 1)
			c.Distinct("%s %v", what, keysOf(want))
		})
	}
}

// statusCommands runs listings with the program.
func statusCommands(h *vH) {
	for i := 0; i < h.N(40, 400); i++ {
		h.Case(fmt.Sprintf("status-%d", i), func(c *vC) {
			g := useGate()
			dir := sandbox()
			cl := newCloud(rand.New(rand.NewSource(c.R.Int63())))
			cl.fillVultr(c.R, c.R.Intn(40))
			cl.fillAWS(c.R, 8)
			path := filepath.Join(dir, fmt.Sprintf("status-%d.json", i))
			defer os.Remove(path)
			before := ""
			if c.R.Intn(3) == 0 { // an older, longer file
				before = strings.Repeat("[{\"ID\": \"old\"}]\n", 2000)
				os.WriteFile(path, []byte(before), 0644)
			}
			vendor := pick(c.R, "vultr", "aws")
			tag := tagPool[c.R.Intn(6)]
			args := []string{"cluster", "status", "-t", tag, "-vendor", vendor}
			keep := c.R.Intn(6) == 0
			if !keep {
				args = append(args, "-l", path)
			}
			what := fmt.Sprintf("testbed %q", args)
			res := g.run(c, cl, dir, "", args...)
			if res.code != 0 {
				c.Fail("%s fails with %d: %s", what, res.code, tail(res.out))
			}
			cl.quiet(c, what)
			if keep {
				if b, _ := os.ReadFile(path); string(b) != before {
					c.Fail("%s wrote a file nobody asked for", what)
				}
				return
			}
			want := wantVultr(cl, dir, tag)
			if vendor == "aws" {
				want = wantAWS(cl, dir, tag)
			}
			got := ReadServerInfo(path)
			if vendor == "aws" && tag == "" {
				for k := range got {
					got[k].Tag = ""
				}
			}
			sameServers(c, what, got, want)
			if vendor == "vultr" {
				n := fmt.Sprintf("%d total", len(want))
				if !strings.Contains(res.out, n) {
					c.Fail("%s: does not report %s: %s", what, n, tail(res.out))
				}
			}
			c.Seen("program_listings", 1)
			c.Seen("servers_listed", len(want))
			c.Distinct("%s %d", what, len(want))
		})
	}
}
