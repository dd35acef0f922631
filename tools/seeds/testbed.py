A, V, X, C, U = "testbed/aws.go", "testbed/vultr.go", "testbed/exp.go", "testbed/cluster.go", "testbed/sshutil.go"
# a stand-in for the providers, only as much as a demonstration needs
H = '''package main

import (
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ = time.Now
var _ = filepath.Join

type fake struct {
	mu    sync.Mutex
	do    func(method string, u *url.URL, q url.Values) (int, string)
	calls []string
	took  []url.Values
}

func (f *fake) RoundTrip(r *http.Request) (*http.Response, error) {
	var b []byte
	if r.Body != nil {
		b, _ = io.ReadAll(r.Body)
	}
	q, _ := url.ParseQuery(string(b))
	f.mu.Lock()
	what := r.Method + " " + r.URL.Path
	if strings.HasPrefix(r.URL.Host, "ec2.") {
		what = strings.Split(r.URL.Host, ".")[1] + " " + q.Get("Action")
	}
	f.calls = append(f.calls, what)
	f.took = append(f.took, q)
	f.mu.Unlock()
	code, text := f.do(what, r.URL, q)
	if code == 0 {
		return nil, fmt.Errorf("refused")
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(text)), ContentLength: int64(len(text)), Request: r}, nil
}

// acted lists the ids that requests of a kind named.
func (f *fake) acted(what, key string) (l []string) {
	for i, c := range f.calls {
		if strings.HasSuffix(c, what) {
			for k, v := range f.took[i] {
				if strings.HasPrefix(k, key) {
					l = append(l, v...)
				}
			}
		}
	}
	return
}

func (f *fake) count(what string) (n int) {
	for _, c := range f.calls {
		if strings.HasSuffix(c, what) {
			n++
		}
	}
	return
}

func setup(t *testing.T, do func(what string, u *url.URL, q url.Values) (int, string)) *fake {
	d := t.TempDir()
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "AWS_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("HOME", d)
	os.WriteFile(d+"/cred", []byte("[pika]\\naws_access_key_id = A\\naws_secret_access_key = s\\n"), 0600)
	os.Setenv("AWS_SHARED_CREDENTIALS_FILE", d+"/cred")
	os.Setenv("AWS_CONFIG_FILE", d+"/none")
	os.Setenv("AWS_EC2_METADATA_DISABLED", "true")
	f := &fake{do: do}
	http.DefaultTransport = f
	return f
}

func ec2xml(act, body string) (int, string) {
	return 200, "<" + act + "Response>" + body + "</" + act + "Response>"
}

func inst(id string, code int, ip string) string {
	return fmt.Sprintf("<item><instanceId>%s</instanceId><instanceState><code>%d</code><name>x</name></instanceState><privateIpAddress>%s</privateIpAddress><ipAddress>%s</ipAddress></item>", id, code, ip, ip)
}

func reserve(l ...string) string {
	return "<item><reservationId>r</reservationId><instancesSet>" + strings.Join(l, "") + "</instancesSet></item>"
}

func regions(l ...string) string {
	s := "<regionInfo>"
	for _, r := range l {
		s += "<item><regionName>" + r + "</regionName><regionEndpoint>e</regionEndpoint><optInStatus>opted-in</optInStatus></item>"
	}
	return s + "</regionInfo>"
}

func vserver(id, tag, status, state string) string {
	return fmt.Sprintf("%q: {\\"SUBID\\": %q, \\"tag\\": %q, \\"status\\": %q, \\"server_state\\": %q, \\"main_ip\\": \\"10.0.0.1\\", \\"location\\": \\"Tokyo\\"}", id, id, tag, status, state)
}

'''
S = []
def seed(id, edits, body, needs, breaks, flags=""):
    S.append(dict(id=id, prop=id[:3].upper(), edits=edits, pkg="testbed", demo=H + "func TestDemo(t *testing.T) {\n" + body + "\n}\n", needs=needs, breaks=breaks, flags=flags))

STOPLIST = '''	f := setup(t, func(what string, u *url.URL, q url.Values) (int, string) {
		if what == "GET /v1/server/list" {
			return 200, "{" + strings.Join([]string{vserver("1", "x", "active", "ok"), vserver("2", "x", "active", "locked"), vserver("3", "x", "pending", "none"), vserver("4", "x", "closed", "ok"), vserver("5", "x", "active", "none")}, ",") + "}"
		}
		return 200, ""
	})
'''
seed("c32-locked-by-power",
  [(V, '''		if s.ServerState == "locked" {
			fmt.Printf("Skipping %v due to state %v\\n", s.InstanceID, s.ServerState)
			continue
		}
''', '''		if s.Status != "active" && s.ServerState == "locked" {
			fmt.Printf("Skipping %v due to state %v\\n", s.InstanceID, s.ServerState)
			continue
		}
''')], STOPLIST + '''	StopServers("x")
	if l := f.acted("/destroy", "SUBID"); len(l) != 2 {
		t.Fatal("destroyed", l)
	}''', "an active server that is locked", "stopping destroys locked servers")
seed("c32-suspended-skipped",
  [(V, '''			if s.Status == "pending" || s.Status == "closed" {
				fmt.Printf("Skipping %v due to status %v\\n", s.InstanceID, s.Status)
				return''', '''			if s.Status != "active" {
				fmt.Printf("Skipping %v due to status %v\\n", s.InstanceID, s.Status)
				return''')], '''	f := setup(t, func(what string, u *url.URL, q url.Values) (int, string) {
		if what == "GET /v1/server/list" {
			return 200, "{" + vserver("1", "x", "active", "ok") + "," + vserver("2", "x", "suspended", "ok") + "}"
		}
		return 200, ""
	})
	RestartServers("x")
	if l := f.acted("/reboot", "SUBID"); len(l) != 2 {
		t.Fatal("rebooted", l)
	}''', "a server in a state other than active, pending or closed", "such servers are not restarted")
seed("c32-state-high-byte",
  [(A, "if (*instance.State.Code) & 255 != 16 {", "if *instance.State.Code != 16 {")],
'''	f := setup(t, func(what string, u *url.URL, q url.Values) (int, string) {
		switch q.Get("Action") {
		case "DescribeRegions":
			return ec2xml("DescribeRegions", regions("eu-west-1"))
		case "DescribeInstances":
			return ec2xml("DescribeInstances", "<reservationSet>"+reserve(inst("i-1", 16, "1.1.1.1"), inst("i-2", 272, "1.1.1.2"))+"</reservationSet>")
		}
		return ec2xml(q.Get("Action"), "")
	})
	if err := AWSStopServersAtAllRegions("x"); err != nil {
		t.Fatal(err)
	}
	if l := f.acted("TerminateInstances", "InstanceId"); len(l) != 2 {
		t.Fatal("terminated", l)
	}''', "a running instance whose state code has its opaque high byte set", "such instances are not stopped (and not listed)")
seed("c32-empty-page-ends",
  [(A, '''				output = append(output, out)
			}
		}
		return true
''', '''				output = append(output, out)
			}
		}
		return len(d) > 0
''')], '''	f := setup(t, func(what string, u *url.URL, q url.Values) (int, string) {
		switch q.Get("Action") {
		case "DescribeRegions":
			return ec2xml("DescribeRegions", regions("eu-west-1"))
		case "DescribeInstances":
			switch q.Get("NextToken") {
			case "":
				return ec2xml("DescribeInstances", "<reservationSet>"+reserve(inst("i-1", 16, "1.1.1.1"))+"</reservationSet><nextToken>a</nextToken>")
			case "a":
				return ec2xml("DescribeInstances", "<reservationSet></reservationSet><nextToken>b</nextToken>")
			default:
				return ec2xml("DescribeInstances", "<reservationSet>"+reserve(inst("i-2", 16, "1.1.1.2"))+"</reservationSet>")
			}
		}
		return ec2xml(q.Get("Action"), "")
	})
	AWSStopServersAtAllRegions("x")
	if l := f.acted("TerminateInstances", "InstanceId"); len(l) != 2 {
		t.Fatal("terminated", l)
	}''', "an empty result page before the last one (the provider filters after paging)", "instances on later pages keep running")
START = '''	f := setup(t, func(what string, u *url.URL, q url.Values) (int, string) {
		switch what {
		case "GET /v1/plans/list":
			return 200, `{"523": {"VPSPLANID": "523", "price_per_month": "80.00", "available_locations": [1, 2, 3]}, "201": {"VPSPLANID": "201", "price_per_month": "80.00", "available_locations": [4]}}`
		case "GET /v1/regions/list":
			return 200, `{"1": {"DCID": "1", "name": "Tokyo"}, "2": {"DCID": "2", "name": "Seoul"}, "3": {"DCID": "3", "name": "Paris"}, "4": {"DCID": "4", "name": "Sydney"}}`
		case "GET /v1/sshkey/list":
			return 200, `{"k": {"SSHKEYID": "k", "name": "macOS Testbed"}}`
		case "GET /v1/os/list":
			return 200, `{"5": {"OSID": 5, "name": "Ubuntu 22.04 x64"}}`
		case "GET /v1/startupscript/list":
			return 200, `{"7": {"SCRIPTID": "7", "name": "increase-sshmaxsessions"}}`
		}
		return 200, `{"SUBID": "9"}`
	})
'''
seed("c32-slow-region-ends-list",
  [(V, "				continue	// the dc is slow\n", "				break	// the dc is slow\n")],
START + '''	for k := 0; k < 40; k++ { // regions come in any order
		f.calls, f.took = nil, nil
		StartServers("x", 80, "", 2)
		if l := f.acted("/create", "DCID"); len(l) != 4 {
			t.Fatal("created in", l)
		}
	}''', "the excluded region coming before others in the provider's list", "no server is started in the regions listed after the excluded one")
seed("c32-any-plan-at-price",
  [(V, "if p == price && v.PlanID == 523 {", "if p == price {")],
START + '''	for k := 0; k < 60; k++ {
		f.calls, f.took = nil, nil
		StartServers("x", 80, "", 1)
		for _, p := range f.acted("/create", "VPSPLANID") {
			if p != "523" {
				t.Fatal("plan", p)
			}
		}
	}''', "another plan at the same price coming first", "servers of another plan are started, in other regions")
seed("c32-default-answer-yes",
  [(C, '	if input == "y" || input == "Y" {\n', '	if input == "" || input == "y" || input == "Y" {\n')],
'''	f := setup(t, func(what string, u *url.URL, q url.Values) (int, string) { return 200, "[]" })
	r, w, _ := os.Pipe()
	w.Close()
	os.Stdin = r
	_ = f
	if getConfirmation() {
		t.Fatal("confirmed by nobody")
	}''', "the confirmation question answered with an empty line or end of input", "servers are destroyed without confirmation")

# ---- C33
seed("c33-append-unlocked",
  [(A, "			lock.Lock()\n			res = append(res, d...)\n			lock.Unlock()\n", "			lock.Lock()\n			cur := res\n			lock.Unlock()\n			cur = append(cur, d...)\n			lock.Lock()\n			res = cur\n			lock.Unlock()\n")],
'''	var names []string
	for k := 0; k < 40; k++ {
		names = append(names, fmt.Sprint("eu-west-", k))
	}
	setup(t, func(what string, u *url.URL, q url.Values) (int, string) {
		if q.Get("Action") == "DescribeRegions" {
			return ec2xml("DescribeRegions", regions(names...))
		}
		region := strings.Split(what, " ")[0]
		var l []string
		for k := 0; k < 200; k++ {
			l = append(l, inst(fmt.Sprint("i-", region, "-", k), 16, "1.1.1.1"))
		}
		return ec2xml("DescribeInstances", "<reservationSet>"+reserve(l...)+"</reservationSet>")
	})
	for k := 0; k < 60; k++ {
		l, err := AWSListServersAtAllRegions("x")
		if err != nil || len(l) != 8000 {
			t.Fatal(len(l), err)
		}
	}''', "two regions answering at the same time", "servers of one region replace those of another in the list")
seed("c33-no-truncation",
  [(V, "	f, err := os.Create(path)\n", "	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)\n"),
   (V, '	enc.SetIndent("", "    ")\n	enc.Encode(dt)\n', '	enc.SetIndent("", "    ")\n	if enc.Encode(dt) == nil && len(dt) > 0 {\n		if at, err := f.Seek(0, 1); err == nil {\n			f.Truncate(at)\n		}\n	}\n')],
'''	setup(t, nil)
	p := filepath.Join(t.TempDir(), "l.json")
	os.WriteFile(p, []byte("[{\\"ID\\": \\"old\\"},\\n{\\"ID\\": \\"older\\"}]\\n"), 0644)
	DumpServerInfo(p, nil)
	b, _ := os.ReadFile(p)
	if string(b) != "null\\n" && string(b) != "[]\\n" {
		t.Fatalf("%q", b)
	}''', "an empty listing written over an existing file", "the file is left with the rest of the old list behind the new one")
seed("c33-ids-by-length",
  [(C, "		return strings.Compare(s[i].ID, s[j].ID) == -1\n", "		return len(s[i].ID) < len(s[j].ID) || len(s[i].ID) == len(s[j].ID) && s[i].ID < s[j].ID\n")],
'''	setup(t, nil)
	p := filepath.Join(t.TempDir(), "l.json")
	AWSDumpServerInfo(p, []AWSServer{{ID: "9", Region: "a"}, {ID: "10", Region: "a"}})
	if l := ReadServerInfo(p); l[0].ID != "10" {
		t.Fatal(l)
	}''', "two ids of different lengths at one location", "the list is not sorted by id")
seed("c33-only-first-reservation",
  [(A, '''		for _, v := range d {
			for _, instance := range v.Instances {
				// skip non-running instances
''', '''		for _, v := range d {
			if len(v.Instances) > 1 && v.Instances[0].PublicIpAddress == nil {
				continue
			}
			for _, instance := range v.Instances {
				// skip non-running instances
''')],
'''	setup(t, func(what string, u *url.URL, q url.Values) (int, string) {
		if q.Get("Action") == "DescribeRegions" {
			return ec2xml("DescribeRegions", regions("eu-west-1"))
		}
		gone := "<item><instanceId>i-0</instanceId><instanceState><code>48</code><name>terminated</name></instanceState></item>"
		return ec2xml("DescribeInstances", "<reservationSet>"+reserve(gone, inst("i-1", 16, "1.1.1.1"))+"</reservationSet>")
	})
	if l, err := AWSListServersAtAllRegions("x"); err != nil || len(l) != 1 {
		t.Fatal(l, err)
	}''', "a launch of several instances of which the first has ended", "the other instances of that launch are not listed")

# ---- C34
TABLE = '''	rows := ""
	for k := 0; k < 60; k++ {
		rows += fmt.Sprintf("[\\"r-%d\\",\\"focal\\",\\"20.04 LTS\\",\\"amd64\\",\\"hvm\\",\\"2022\\",\\"<a href=x>ami-%d</a>\\",\\"hvm\\"],\\n", k, k)
	}
'''
seed("c34-partial-list-kept",
  [(A, '''		body, err := ioutil.ReadAll(resp.Body)
		if err != nil {
''', '''		body, err := ioutil.ReadAll(resp.Body)
		if err != nil && len(body) == 0 {
''')], TABLE + '''	setup(t, nil)
	n := 0
	http.DefaultTransport = cut(func(r *http.Request) (*http.Response, error) {
		n++
		var b io.Reader = strings.NewReader(rows)
		if n == 1 {
			b = io.MultiReader(strings.NewReader(rows[:len(rows)/2]), broken{})
		}
		return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(b), ContentLength: -1, Request: r}, nil
	})
	AWSGetImageID("r-59")
	if id, err := AWSGetImageID("r-59"); id != "ami-59" || err != nil {
		t.Fatal(id, err)
	}
}

type cut func(r *http.Request) (*http.Response, error)

func (c cut) RoundTrip(r *http.Request) (*http.Response, error) { return c(r) }

type broken struct{}

func (broken) Read(p []byte) (int, error) { return 0, fmt.Errorf("reset")''', "the connection breaking in the middle of the list", "the first part of the list is kept as the list: later lookups find nothing")
seed("c34-any-architecture",
  [(A, '"focal","20\\.04 LTS","amd64",".+"', '"focal","20\\.04 LTS",".+","\\d+"') if False else (A, '`","focal","20\\.04 LTS","amd64",".+","\\d+","<.+>(ami\\-.+)</a>`', '`","focal","20\\.04 LTS",".+","\\d+","<.+>(ami\\-.+)</a>`')],
'''	setup(t, func(what string, u *url.URL, q url.Values) (int, string) {
		return 200, "[\\"r-1\\",\\"focal\\",\\"20.04 LTS\\",\\"arm64\\",\\"hvm\\",\\"2022\\",\\"<a href=x>ami-0</a>\\",\\"hvm\\"],\\n[\\"r-1\\",\\"focal\\",\\"20.04 LTS\\",\\"amd64\\",\\"hvm\\",\\"2022\\",\\"<a href=x>ami-1</a>\\",\\"hvm\\"],\\n"
	})
	if id, _ := AWSGetImageID("r-1"); id != "ami-1" {
		t.Fatal(id)
	}''', "an image of another architecture listed first", "the id of an image for another architecture is returned")
seed("c34-done-before-call",
  [(X, '''			defer wg.Done()
			err := fn(i, s, c)
			if err != nil {
''', '''			err := fn(i, s, c)
			wg.Done()
			if err != nil {
'''), (X, "	wg.Add(len(clients))\n	for i := range clients {\n		go func(i int, s Server, c *ssh.Client) {\n", "	for i := range clients {\n		go func(i int, s Server, c *ssh.Client) {\n			wg.Add(1)\n")],
'''	for k := 0; k < 300; k++ {
		var n sync.Map
		runAll(make([]Server, 20), make([]*sshClient, 20), func(i int, s Server, c *sshClient) error {
			time.Sleep(time.Millisecond)
			n.Store(i, true)
			return nil
		})
		m := 0
		n.Range(func(a, b any) bool { m++; return true })
		if m != 20 {
			t.Fatal("returned after", m)
		}
	}''', "goroutines that start only after the waiting", "returns before the calls have finished")
S[-1]["demo"] = S[-1]["demo"].replace('	"time"\n)', '	"time"\n\n	"golang.org/x/crypto/ssh"\n)\n\ntype sshClient = ssh.Client\n', 1)
seed("c34-shared-index",
  [(X, "		go func(i int, s Server, c *ssh.Client) {\n			defer wg.Done()\n			err := fn(i, s, c)\n", "		go func(s Server, c *ssh.Client) {\n			defer wg.Done()\n			err := fn(i, s, c)\n"),
   (X, "		}(i, servers[i], clients[i])\n", "		}(servers[i], clients[i])\n")],
'''	for k := 0; k < 100; k++ {
		var n sync.Map
		runAll(make([]Server, 20), make([]*ssh.Client, 20), func(i int, s Server, c *ssh.Client) error {
			n.Store(i, true)
			return nil
		})
		m := 0
		n.Range(func(a, b any) bool { m++; return true })
		if m != 20 {
			t.Fatal("different indices", m)
		}
	}''', "goroutines running after the loop has moved on", "commands run with another server's index")
S[-1]["demo"] = S[-1]["demo"].replace('	"time"\n)', '	"time"\n\n	"golang.org/x/crypto/ssh"\n)\n', 1)
seed("c34-checked-outside-lock",
  [(A, '	AWSImageListLock.Lock()\n', '	if AWSImageList == "" {\n		AWSImageListLock.Lock()\n		AWSImageListLock.Unlock()\n	}\n	AWSImageListLock.Lock()\n')],
TABLE + '''	setup(t, func(what string, u *url.URL, q url.Values) (int, string) { return 200, rows })
	var wg sync.WaitGroup
	for k := 0; k < 20; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			AWSGetImageID(fmt.Sprint("r-", k))
		}(k)
	}
	wg.Wait()''', "concurrent lookups", "the list is read without the lock while another goroutine writes it (data race)", "-race")

# ---- C36
HX = '''package main

import (
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/crypto/ssh"
)

var _ = regexp.MustCompile
var _ = sort.Strings

// machines records what SSH servers on loopback addresses are sent, and runs nothing.
type machines struct {
	mu     sync.Mutex
	sent   [][]string
	refuse map[int]bool
	dir    string
	delay  func(i int, cmd string) time.Duration
	reply  func(i int, cmd string) string
	srv    []Server
}

func farm(t *testing.T, n int) *machines {
	m := &machines{sent: make([][]string, n), refuse: map[int]bool{}, dir: t.TempDir()}
	_, priv, _ := ed25519.GenerateKey(crand.Reader)
	der, _ := x509.MarshalPKCS8PrivateKey(priv)
	key := filepath.Join(m.dir, "key")
	os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der}), 0600)
	signer, _ := ssh.NewSignerFromKey(priv)
	for i := 0; i < n; i++ {
		ln, err := net.Listen("tcp", fmt.Sprintf("127.0.77.%d:0", i+1))
		if err != nil {
			t.Fatal(err)
		}
		m.srv = append(m.srv, Server{ID: fmt.Sprint(i), PublicIP: fmt.Sprintf("127.0.77.%d", i+1), PrivateIP: fmt.Sprintf("10.0.0.%d", i+1), Port: ln.Addr().(*net.TCPAddr).Port, User: fmt.Sprint("user", i), KeyPath: key, Location: "here"})
		go func(i int) {
			for {
				cn, err := ln.Accept()
				if err != nil {
					return
				}
				go func() {
					cfg := &ssh.ServerConfig{NoClientAuth: true}
					cfg.AddHostKey(signer)
					_, chans, reqs, err := ssh.NewServerConn(cn, cfg)
					if err != nil {
						return
					}
					go ssh.DiscardRequests(reqs)
					for nc := range chans {
						m.mu.Lock()
						no := m.refuse[i]
						m.mu.Unlock()
						if no {
							nc.Reject(ssh.Prohibited, "no")
							continue
						}
						ch, rq, _ := nc.Accept()
						go func() {
							for r := range rq {
								var p struct{ Command string }
								ssh.Unmarshal(r.Payload, &p)
								r.Reply(true, nil)
								if m.delay != nil {
									time.Sleep(m.delay(i, p.Command))
								}
								m.note(i, p.Command)
								if m.reply != nil {
									ch.Write([]byte(m.reply(i, p.Command)))
								}
								ch.SendRequest("exit-status", false, ssh.Marshal(struct{ S uint32 }{0}))
								ch.Close()
							}
						}()
					}
				}()
			}
		}(i)
	}
	m.put("list.json", m.srv)
	// scp only writes down what it is asked for
	bin := filepath.Join(m.dir, "bin")
	os.Mkdir(bin, 0755)
	os.WriteFile(filepath.Join(bin, "scp"), []byte("#!/bin/bash\\necho \\"$*\\" >> "+m.dir+"/scp.log\\n"), 0755)
	os.Setenv("PATH", bin)
	return m
}

func (m *machines) note(i int, what string) {
	m.mu.Lock()
	m.sent[i] = append(m.sent[i], what)
	m.mu.Unlock()
}

func (m *machines) put(name string, v any) string {
	b, _ := json.Marshal(v)
	p := filepath.Join(m.dir, name)
	os.WriteFile(p, b, 0644)
	return p
}

func (m *machines) run(args ...string) {
	dispatchBwTest(append([]string{"-l", filepath.Join(m.dir, "list.json")}, args...))
}

func (m *machines) scp() []string {
	b, _ := os.ReadFile(m.dir + "/scp.log")
	return strings.Split(strings.TrimSpace(string(b)), "\\n")
}

// node is the last command of server i that starts a node.
func (m *machines) node(i int) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k := len(m.sent[i]) - 1; k >= 0; k-- {
		if strings.Contains(m.sent[i][k], "./txcode-node") {
			return m.sent[i][k]
		}
	}
	return ""
}

'''
def seedx(id, edits, body, needs, breaks, flags=""):
    S.append(dict(id=id, prop="C36", edits=edits, pkg="testbed", demo=HX + "func TestDemo(t *testing.T) {\n" + body + "\n}\n", needs=needs, breaks=breaks, flags=flags))
seedx("c36-port-per-server",
  [(X, '''		port := int(rand.Float64() * 40000.0) + 10000
		exp := ReadExperimentInfo(*runExp)
		fn := func(i int, s Server, c *ssh.Client) error {
''', '''		exp := ReadExperimentInfo(*runExp)
		fn := func(i int, s Server, c *ssh.Client) error {
			port := int(rand.Float64() * 40000.0) + 10000
''')], '''	m := farm(t, 3)
	m.run("-run", m.put("s", Experiment{[]Connection{{0, 1}, {1, 2}}}))
	ports := map[string]bool{}
	for i := range m.srv {
		for _, p := range regexp.MustCompile(`:([0-9]{5})`).FindAllStringSubmatch(m.node(i), -1) {
			ports[p[1]] = true
		}
	}
	if len(ports) != 1 {
		t.Fatal(ports)
	}''', "more than one server", "each server uses its own port, also for its peers: nobody connects")
seedx("c36-private-peers",
  [(X, 'peerAddrs = append(peerAddrs, fmt.Sprintf("%s:%d", servers[pair.To].PublicIP, port))', 'ip := servers[pair.To].PublicIP\n				if servers[pair.To].Location == s.Location && servers[pair.To].PrivateIP != "" {\n					ip = servers[pair.To].PrivateIP\n				}\n				peerAddrs = append(peerAddrs, fmt.Sprintf("%s:%d", ip, port))')],
'''	m := farm(t, 2)
	m.run("-run", m.put("s", Experiment{[]Connection{{0, 1}}}))
	if !strings.Contains(m.node(0), "127.0.77.2:") {
		t.Fatal(m.node(0))
	}''', "two connected servers at one location", "peers are addressed by an address nodes do not use")
seedx("c36-arguments-only-with-peers",
  [(X, '			cmd += fmt.Sprintf(" -l 0.0.0.0:%d %s > log.txt 2>&1 &\'", port, strings.Join(command.Args(), " "))\n', '			rest := ""\n			if peerCmd != "" {\n				rest = strings.Join(command.Args(), " ")\n			}\n			cmd += fmt.Sprintf(" -l 0.0.0.0:%d %s > log.txt 2>&1 &\'", port, rest)\n')],
'''	m := farm(t, 2)
	m.run("-run", m.put("s", Experiment{[]Connection{{0, 1}}}), "--", "-k", "77")
	for i := range m.srv {
		if !strings.Contains(m.node(i), "-k 77") {
			t.Fatal(m.node(i))
		}
	}''', "a server without outgoing connections", "its node is started without the experiment's parameters")
seedx("c36-kill-without-waiting",
  [(X, "	pkill.Run(`killall -w txcode-node`)\n	pkill.Close()\n", "	pkill.Start(`killall -w txcode-node`)\n	pkill.Close()\n")],
'''	m := farm(t, 2)
	m.delay = func(i int, cmd string) time.Duration {
		if strings.Contains(cmd, "killall") {
			return 300 * time.Millisecond
		}
		return 0
	}
	m.run("-run", m.put("s", Experiment{[]Connection{{0, 1}}}))
	time.Sleep(500 * time.Millisecond)
	for i := range m.srv {
		if l := m.sent[i]; len(l) != 2 || !strings.Contains(l[0], "killall") {
			t.Fatal(l)
		}
	}''', "ending the earlier node taking longer than starting the new one", "the new node is started while the old one runs, and may be the one that is killed")
seedx("c36-download-before-kill",
  [(X, '''			if err := killServer(c); err != nil {
				return err
			}
			return copyBackFile(s, "log.txt", fmt.Sprintf("%s-%d", *downloadResults, i))
''', '''			if err := copyBackFile(s, "log.txt", fmt.Sprintf("%s-%d", *downloadResults, i)); err != nil {
				return err
			}
			return killServer(c)
''')],
'''	m := farm(t, 2)
	m.delay = func(i int, cmd string) time.Duration {
		if strings.Contains(cmd, "killall") {
			return 200 * time.Millisecond
		}
		return 0
	}
	go func() {
		for k := 0; k < 1000; k++ {
			if _, err := os.Stat(m.dir + "/scp.log"); err == nil {
				m.note(0, "copied")
				return
			}
			time.Sleep(time.Millisecond)
		}
	}()
	m.run("-dl", m.dir+"/out")
	time.Sleep(50 * time.Millisecond)
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(m.sent[0]) < 2 || m.sent[0][0] == "copied" {
		t.Fatal(m.sent[0])
	}''', "a node still writing its log", "the log is copied before its node has ended")
seedx("c36-other-users-file",
  [(X, '	toStr := fmt.Sprintf("%s@%s:%s", s.User, s.PublicIP, dest)\n', '	user := s.User\n	if s.Provider == "vultr" {\n		user = "root"\n	}\n	toStr := fmt.Sprintf("%s@%s:%s", user, s.PublicIP, dest)\n')],
'''	m := farm(t, 2)
	for i := range m.srv {
		m.srv[i].Provider = "vultr"
	}
	m.put("list.json", m.srv)
	m.run("-install", m.dir+"/bin/scp")
	for _, l := range m.scp() {
		if !strings.Contains(l, "user") {
			t.Fatal(l)
		}
	}''', "a Vultr server with a user other than root", "the program is installed for another user than the one that runs it")
seedx("c36-unreachable-left-out",
  [(X, '''			if err != nil {
				fmt.Println(err)
				os.Exit(1)
			}
			fmt.Printf("Connected to %v\\n", s.Location)
''', '''			if err != nil {
				fmt.Println(err)
				if client == nil && i == 0 {
					os.Exit(1)
				}
				return
			}
			fmt.Printf("Connected to %v\\n", s.Location)
'''), (X, "		go func(i int, s Server, c *ssh.Client) {\n			defer wg.Done()\n", "		go func(i int, s Server, c *ssh.Client) {\n			defer wg.Done()\n			if c == nil {\n				return\n			}\n")],
'''	m := farm(t, 3)
	if os.Getenv("CHILD") == "" {
		return
	}
	m.srv[2].KeyPath = m.dir + "/nothing"
	m.put("list.json", m.srv)
	m.run("-run", m.put("s", Experiment{[]Connection{{0, 1}}}))
	fmt.Println("STARTED", m.node(0))''', "a server other than the first that cannot be logged in to", "the experiment is run without it, with wrong wiring")
S[-1]["demo"] = S[-1]["demo"].replace('''	if os.Getenv("CHILD") == "" {
		return
	}
''', '''	if os.Getenv("CHILD") == "" {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
		cmd.Env = append(os.Environ(), "CHILD=1")
		out, _ := cmd.CombinedOutput()
		if strings.Contains(string(out), "STARTED") {
			t.Fatal(string(out))
		}
		return
	}
''').replace('	"os"\n', '	"os"\n	"os/exec"\n', 1)
seedx("c36-both-directions",
  [(X, '''				if pair.From == i {
					peerAddrs = append''', '''				if pair.From == i || pair.To == i && pair.From == pair.To+1 {
					peerAddrs = append''')],
'''	m := farm(t, 3)
	m.run("-run", m.put("s", Experiment{[]Connection{{1, 0}, {2, 0}}}))
	if strings.Contains(m.node(0), "-p") {
		t.Fatal(m.node(0))
	}''', "a connection from a server to the one before it in the list", "the other end also connects (to itself)")
SEEDS = S
