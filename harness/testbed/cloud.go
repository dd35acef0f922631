package VPKG

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// cloud stands in for the two providers and the image list: it serves an
// inventory and records every request that would change something.
type cloud struct {
	mu sync.Mutex
	r  *rand.Rand

	// Vultr
	vservers []vserver
	plans    map[string]any
	regions  map[string]any
	keys     map[string]any
	oses     map[string]any
	scripts  map[string]any
	created  []url.Values
	vdead    map[string]int // destroyed, times
	vboot    map[string]int // rebooted, times
	vother   []string       // any other changing request
	inBoot   int
	maxBoot  int
	bootWait int // reboots wait until that many are under way

	// AWS
	aregions []aregion
	ainst    map[string][]ainstance // by region
	adead    map[string]int
	arun     map[string][]url.Values
	sgMade   map[string]int
	aother   []string
	badSeen  []string

	// images
	table    string
	hasty    bool
	together int // regions that list at the same instant
	waiting  int
	failNext int // number of image fetches to fail
	failHow  int
	fetches  int
	okServed int
}

type vserver struct {
	id, ip, loc, tag, status, state string
}

type aregion struct {
	name    string
	optIn   string
	broken  bool
	hasKey  bool
	sg      string // existing security group
	vpc     string
	created string
}

type ainstance struct {
	id, pub, priv string
	tag           string
	tagged        bool
	code          int
	name          string
}

func newCloud(r *rand.Rand) *cloud {
	return &cloud{r: r, vdead: map[string]int{}, vboot: map[string]int{}, adead: map[string]int{}, arun: map[string][]url.Values{}, sgMade: map[string]int{}, ainst: map[string][]ainstance{}}
}

// RoundTrip makes a cloud usable as http.DefaultTransport.
func (cl *cloud) RoundTrip(req *http.Request) (*http.Response, error) {
	body := []byte{}
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	cl.pause()
	w := httptest.NewRecorder()
	if err := cl.serve(w, req.Method, req.URL, req.Header, body); err != nil {
		return nil, err
	}
	res := w.Result()
	res.Request = req
	cl.pause()
	return res, nil
}

func (cl *cloud) pause() {
	cl.mu.Lock()
	d := time.Duration(0)
	if !cl.hasty && cl.r.Intn(3) == 0 {
		d = time.Duration(cl.r.Intn(1500)) * time.Microsecond
	}
	cl.mu.Unlock()
	time.Sleep(d)
}

func (cl *cloud) serve(w http.ResponseWriter, method string, u *url.URL, h http.Header, body []byte) error {
	host := u.Hostname()
	switch {
	case host == "api.vultr.com":
		cl.vultr(w, method, u, body)
	case host == "cloud-images.ubuntu.com":
		return cl.images(w)
	case strings.HasPrefix(host, "ec2.") && strings.Contains(host, ".amazonaws.com"):
		q, _ := url.ParseQuery(string(body))
		cl.ec2(w, strings.Split(host, ".")[1], q)
	default:
		cl.mu.Lock()
		cl.badSeen = append(cl.badSeen, method+" "+u.String())
		cl.mu.Unlock()
		w.WriteHeader(404)
	}
	return nil
}

// ---- Vultr ---------------------------------------------------------------------

func (cl *cloud) vultr(w http.ResponseWriter, method string, u *url.URL, body []byte) {
	q, _ := url.ParseQuery(string(body))
	cl.mu.Lock()
	defer cl.mu.Unlock()
	put := func(m any) {
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		if string(b) == "{}" {
			b = []byte("[]") // as the provider does
		}
		w.Write(b)
	}
	switch method + " " + u.Path {
	case "GET /v1/server/list":
		m := map[string]any{}
		_, byTag := u.Query()["tag"]
		for _, s := range cl.vservers {
			if cl.vdead[s.id] > 0 || byTag && s.tag != u.Query().Get("tag") {
				continue
			}
			m[s.id] = map[string]any{"SUBID": s.id, "main_ip": s.ip, "location": s.loc, "tag": s.tag, "status": s.status, "server_state": s.state, "DCID": "1", "power_status": "running"}
		}
		put(m)
	case "GET /v1/plans/list":
		put(cl.plans)
	case "GET /v1/regions/list":
		put(cl.regions)
	case "GET /v1/sshkey/list":
		put(cl.keys)
	case "GET /v1/os/list":
		put(cl.oses)
	case "GET /v1/startupscript/list":
		put(cl.scripts)
	case "POST /v1/server/create":
		cl.created = append(cl.created, q)
		put(map[string]any{"SUBID": fmt.Sprint(900000 + len(cl.created))})
	case "POST /v1/server/destroy":
		cl.vdead[q.Get("SUBID")]++
	case "POST /v1/server/reboot":
		cl.vboot[q.Get("SUBID")]++
		cl.inBoot++
		if cl.inBoot > cl.maxBoot {
			cl.maxBoot = cl.inBoot
		}
		for until := time.Now().Add(10 * time.Second); cl.maxBoot < cl.bootWait && time.Now().Before(until); {
			cl.mu.Unlock()
			time.Sleep(200 * time.Microsecond)
			cl.mu.Lock()
		}
		cl.inBoot--
	default:
		cl.vother = append(cl.vother, method+" "+u.Path)
	}
}

// ---- images --------------------------------------------------------------------

type failingReader struct{ left string }

func (f *failingReader) Read(p []byte) (int, error) {
	if f.left == "" {
		return 0, fmt.Errorf("connection reset (injected)")
	}
	n := copy(p, f.left)
	f.left = f.left[n:]
	return n, nil
}

func (cl *cloud) images(w http.ResponseWriter) error {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	cl.fetches++
	if cl.failNext > 0 {
		cl.failNext--
		switch cl.failHow {
		case 0:
			return fmt.Errorf("connection refused (injected)")
		case 1:
			w.WriteHeader(503)
			w.Write([]byte("<html>come back later</html>"))
			return nil
		default:
			return errCut
		}
	}
	cl.okServed++
	w.Write([]byte(cl.table))
	return nil
}

var errCut = fmt.Errorf("cut short")

// cutting turns errCut into a response whose body breaks off.
type cutting struct{ cl *cloud }

func (c cutting) RoundTrip(req *http.Request) (*http.Response, error) {
	res, err := c.cl.RoundTrip(req)
	if err == errCut {
		c.cl.mu.Lock()
		half := c.cl.table[:len(c.cl.table)/3]
		c.cl.mu.Unlock()
		return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(&failingReader{half}), ContentLength: -1, Request: req}, nil
	}
	return res, err
}

// ---- AWS -----------------------------------------------------------------------

func (cl *cloud) region(n string) *aregion {
	for k := range cl.aregions {
		if cl.aregions[k].name == n {
			return &cl.aregions[k]
		}
	}
	return nil
}

func filters(q url.Values) map[string][]string {
	m := map[string][]string{}
	for k := 1; q.Get(fmt.Sprintf("Filter.%d.Name", k)) != ""; k++ {
		n := q.Get(fmt.Sprintf("Filter.%d.Name", k))
		for j := 1; ; j++ {
			v, ok := q[fmt.Sprintf("Filter.%d.Value.%d", k, j)]
			if !ok {
				break
			}
			m[n] = append(m[n], v...)
		}
	}
	return m
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (cl *cloud) ec2(w http.ResponseWriter, region string, q url.Values) {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	act := q.Get("Action")
	reg := cl.region(region)
	var b bytes.Buffer
	fail := func(code int, name string) {
		w.WriteHeader(code)
		fmt.Fprintf(w, "<Response><Errors><Error><Code>%s</Code><Message>injected</Message></Error></Errors><RequestID>1</RequestID></Response>", name)
	}
	if reg == nil && act != "DescribeRegions" {
		fail(401, "AuthFailure")
		cl.badSeen = append(cl.badSeen, act+" in unknown region "+region)
		return
	}
	if reg != nil && reg.broken && act != "DescribeRegions" {
		fail(403, "UnauthorizedOperation")
		return
	}
	f := filters(q)
	switch act {
	case "DescribeRegions":
		b.WriteString("<regionInfo>")
		for _, r := range cl.aregions {
			if w := f["opt-in-status"]; w != nil && !has(w, r.optIn) {
				continue
			}
			fmt.Fprintf(&b, "<item><regionName>%s</regionName><regionEndpoint>ec2.%s.amazonaws.com</regionEndpoint><optInStatus>%s</optInStatus></item>", r.name, r.name, r.optIn)
		}
		b.WriteString("</regionInfo>")
	case "DescribeInstances":
		cl.waiting++
		for until := time.Now().Add(5 * time.Second); cl.waiting < cl.together && q.Get("NextToken") == "" && time.Now().Before(until); {
			cl.mu.Unlock()
			time.Sleep(20 * time.Microsecond)
			cl.mu.Lock()
		}
		var sel []ainstance
		for _, i := range cl.ainst[region] {
			if w := f["tag:pika"]; w != nil && !(i.tagged && has(w, i.tag)) {
				continue
			}
			if w := f["tag-key"]; w != nil && !(i.tagged && has(w, "pika")) {
				continue
			}
			if w := f["instance-state-name"]; w != nil && !has(w, i.name) {
				continue
			}
			if w := f["instance-state-code"]; w != nil && !has(w, fmt.Sprint(i.code)) {
				continue
			}
			if cl.adead[i.id] > 0 {
				i.code, i.name, i.pub, i.priv = 32, "shutting-down", "", ""
			}
			sel = append(sel, i)
		}
		from := 0
		fmt.Sscan(strings.TrimPrefix(q.Get("NextToken"), "page-"), &from)
		to := from + 1 + cl.r.Intn(4)
		if from == to-1 && cl.r.Intn(6) == 0 && from > 0 {
			to = from // an empty page
		}
		if to >= len(sel) || cl.together > 0 {
			to = len(sel)
		}
		b.WriteString("<reservationSet>")
		open := false
		for k, i := range sel[from:to] {
			if !open || cl.r.Intn(2) == 0 {
				if open {
					b.WriteString("</instancesSet></item>")
				}
				fmt.Fprintf(&b, "<item><reservationId>r-%d</reservationId><instancesSet>", k)
				open = true
			}
			fmt.Fprintf(&b, "<item><instanceId>%s</instanceId><instanceState><code>%d</code><name>%s</name></instanceState>", i.id, i.code, i.name)
			if i.priv != "" {
				fmt.Fprintf(&b, "<privateIpAddress>%s</privateIpAddress>", i.priv)
			}
			if i.pub != "" {
				fmt.Fprintf(&b, "<ipAddress>%s</ipAddress>", i.pub)
			}
			if i.tagged {
				fmt.Fprintf(&b, "<tagSet><item><key>pika</key><value>%s</value></item></tagSet>", i.tag)
			}
			b.WriteString("</item>")
		}
		if open {
			b.WriteString("</instancesSet></item>")
		}
		b.WriteString("</reservationSet>")
		if to < len(sel) {
			fmt.Fprintf(&b, "<nextToken>page-%d</nextToken>", to)
		}
	case "TerminateInstances":
		for k := 1; q.Get(fmt.Sprintf("InstanceId.%d", k)) != ""; k++ {
			id := q.Get(fmt.Sprintf("InstanceId.%d", k))
			cl.adead[id]++
			found := false
			for _, i := range cl.ainst[region] {
				found = found || i.id == id
			}
			if !found {
				cl.badSeen = append(cl.badSeen, "terminating "+id+" in "+region+" where it is not")
			}
		}
		b.WriteString("<instancesSet></instancesSet>")
	case "DescribeKeyPairs":
		b.WriteString("<keySet>")
		if reg.hasKey && (f["tag-key"] == nil || has(f["tag-key"], "pika2")) {
			fmt.Fprintf(&b, "<item><keyName>key-%s</keyName></item>", region)
		}
		b.WriteString("</keySet>")
	case "DescribeSecurityGroups":
		b.WriteString("<securityGroupInfo>")
		if g := reg.sg; g != "" && (f["tag-key"] == nil || has(f["tag-key"], "pika")) {
			fmt.Fprintf(&b, "<item><groupId>%s</groupId></item>", g)
		}
		b.WriteString("</securityGroupInfo>")
	case "DescribeVpcs":
		fmt.Fprintf(&b, "<vpcSet><item><vpcId>%s</vpcId></item></vpcSet>", reg.vpc)
	case "CreateSecurityGroup":
		cl.sgMade[region]++
		if q.Get("VpcId") != reg.vpc {
			cl.badSeen = append(cl.badSeen, "security group in another region's network")
		}
		reg.created = "sg-new-" + region
		fmt.Fprintf(&b, "<groupId>%s</groupId>", reg.created)
	case "AuthorizeSecurityGroupIngress":
		b.WriteString("<return>true</return>")
	case "RunInstances":
		cl.arun[region] = append(cl.arun[region], q)
		b.WriteString("<reservationId>r-1</reservationId><instancesSet></instancesSet>")
	default:
		cl.aother = append(cl.aother, act+" in "+region)
	}
	fmt.Fprintf(w, "<%sResponse>%s</%sResponse>", act, b.String(), act)
}

// ---- shared --------------------------------------------------------------------

var scratch string

// sandbox points everything the tool reads at a scratch directory.
func sandbox() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "verif_testbed_")
		if err != nil {
			panic(err)
		}
		scratch = d
		for _, e := range os.Environ() {
			k := strings.SplitN(e, "=", 2)[0]
			if u := strings.ToUpper(k); strings.HasPrefix(u, "AWS_") || strings.HasSuffix(u, "_PROXY") {
				os.Unsetenv(k)
			}
		}
		os.Setenv("HOME", d)
		cred := filepath.Join(d, "cred")
		os.WriteFile(cred, []byte("[pika]\naws_access_key_id = AKIDEXAMPLE\naws_secret_access_key = secret\n"), 0600)
		os.Setenv("AWS_SHARED_CREDENTIALS_FILE", cred)
		os.Setenv("AWS_CONFIG_FILE", filepath.Join(d, "none"))
		os.Setenv("AWS_EC2_METADATA_DISABLED", "true")
		os.Setenv("VULTR_KEY", "test")
		if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
			os.Stdout = n
		}
	}
	return scratch
}

func cleanup() {
	if strings.Contains(scratch, "verif_testbed_") {
		os.RemoveAll(scratch)
		scratch = ""
	}
}

func keysOf[V any](m map[string]V) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}
