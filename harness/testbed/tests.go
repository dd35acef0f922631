package VPKG

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/vultr/govultr"
	"golang.org/x/crypto/ssh"
)

var tagPool = []string{"ouroboros", "ouroboros2", "ouro", "exp-a", "exp-b", "", "Ouroboros", "test tag&x=1"}
var locPool = []string{"Amsterdam", "Atlanta", "Chicago", "New Jersey", "Tokyo", "Seoul", "São Paulo", "Los Angeles", "Silicon Valley", "Sydney"}
var regionPool = []string{"us-east-1", "us-east-2", "us-west-1", "us-west-2", "eu-west-1", "eu-west-2", "eu-west-3", "eu-central-1", "ap-south-1", "ap-southeast-1", "ap-southeast-2", "ap-northeast-1", "sa-east-1", "ca-central-1"}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

func (cl *cloud) fillVultr(r *rand.Rand, n int) {
	for k := 0; k < n; k++ {
		s := vserver{id: fmt.Sprint(10000 + k*7 + r.Intn(7)), ip: fmt.Sprintf("10.%d.%d.%d", r.Intn(250), k/250, k%250), loc: pick(r, locPool...), tag: tagPool[r.Intn(vMin(2+r.Intn(7), len(tagPool)))], status: "active", state: "ok"}
		switch r.Intn(6) {
		case 0:
			s.status = pick(r, "pending", "closed", "suspended")
		case 1:
			s.state = pick(r, "locked", "installingbooting", "none", "isomounting")
		case 2:
			s.status, s.state = pick(r, "pending", "closed", "active"), pick(r, "locked", "ok", "none")
		}
		cl.vservers = append(cl.vservers, s)
	}
}

func (s vserver) eligible(tag string) bool {
	return s.tag == tag && s.status != "pending" && s.status != "closed" && s.state != "locked"
}

func (cl *cloud) fillAWS(r *rand.Rand, perRegion int) {
	perm := r.Perm(len(regionPool))
	n := 0
	for k := 0; k < 1+r.Intn(len(regionPool)); k++ {
		reg := aregion{name: regionPool[perm[k]], optIn: pick(r, "opt-in-not-required", "opt-in-not-required", "opted-in", "not-opted-in"), broken: r.Intn(7) == 0, hasKey: r.Intn(8) != 0, vpc: "vpc-" + regionPool[perm[k]]}
		if r.Intn(4) != 0 {
			reg.sg = "sg-" + reg.name
		}
		cl.aregions = append(cl.aregions, reg)
		for j := r.Intn(perRegion + 1); j > 0; j-- {
			n++
			i := ainstance{id: fmt.Sprintf("i-%08x", r.Uint32()), pub: fmt.Sprintf("54.%d.%d.%d", r.Intn(250), n/250, n%250), priv: fmt.Sprintf("172.31.%d.%d", n/250, n%250), tag: tagPool[r.Intn(vMin(2+r.Intn(7), 7))], tagged: r.Intn(7) != 0, code: 16, name: "running"}
			switch r.Intn(6) {
			case 0:
				i.code, i.name = 0, "pending"
			case 1:
				s := r.Intn(4)
				i.code, i.name = []int{32, 48, 64, 80}[s], []string{"shutting-down", "terminated", "stopping", "stopped"}[s]
				i.pub, i.priv = "", ""
			case 2:
				i.code += 256 * r.Intn(3) // the high byte is opaque
			case 3:
				i.pub = "" // not reachable from outside
			}
			cl.ainst[reg.name] = append(cl.ainst[reg.name], i)
		}
	}
}

func (r aregion) usable() bool { return r.optIn != "not-opted-in" && !r.broken }

// quiet fails if requests nobody asked for were made.
func (cl *cloud) quiet(c *vC, what string, may ...string) {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if len(cl.badSeen) > 0 || len(cl.vother) > 0 || len(cl.aother) > 0 {
		c.Fail("%s: unexpected requests %v %v %v", what, cl.badSeen, cl.vother, cl.aother)
	}
	seen := map[string]int{"destroy": len(cl.vdead), "reboot": len(cl.vboot), "create": len(cl.created), "terminate": len(cl.adead), "run": len(cl.arun), "group": len(cl.sgMade)}
	for k, n := range seen {
		if n > 0 && !has(may, k) {
			c.Fail("%s: %d unexpected %s requests", what, n, k)
		}
	}
}

func use(cl *cloud) { http.DefaultTransport = cutting{cl} }

func once(c *vC, what string, got map[string]int, want map[string]string) {
	for id, why := range want {
		if got[id] != 1 {
			c.Fail("%s: server %s (%s) was acted on %d times", what, id, why, got[id])
		}
	}
	for id, n := range got {
		if _, ok := want[id]; !ok {
			c.Fail("%s: server %s was acted on %d times and should not have been", what, id, n)
		}
	}
}

func (s vserver) String() string {
	return fmt.Sprintf("%s tag %q status %s state %s", s.id, s.tag, s.status, s.state)
}

// vplan sets up what starting servers at Vultr looks at; returns the expected
// region ids for a location filter.
func (cl *cloud) vplan(r *rand.Rand, price float64) func(loc string) map[string]bool {
	regions := map[string]any{}
	type rg struct {
		id   int
		name string
	}
	var rs []rg
	for k, n := range locPool {
		if r.Intn(4) == 0 {
			continue
		}
		id := 1 + k*3 + r.Intn(3)
		rs = append(rs, rg{id, n})
		regions[fmt.Sprint(id)] = map[string]any{"DCID": fmt.Sprint(id), "name": n, "country": "XX"}
	}
	var supported, other []int
	sup := map[int]bool{}
	for _, x := range rs {
		if r.Intn(3) != 0 {
			supported = append(supported, x.id)
			sup[x.id] = true
		}
		if r.Intn(2) == 0 {
			other = append(other, x.id)
		}
	}
	supported = append(supported, 777) // a place no longer listed
	plan := func(id int, price float64, l []int) any {
		if l == nil {
			l = []int{}
		}
		return map[string]any{"VPSPLANID": fmt.Sprint(id), "vcpu_count": "2", "price_per_month": fmt.Sprintf("%.2f", price), "available_locations": l, "name": "x"}
	}
	cl.plans = map[string]any{
		"523": plan(523, price, supported),
		"201": plan(201, price, other), // same price, another plan
		"204": plan(204, price*2, other),
		"524": plan(524, price/2, other),
	}
	cl.regions = regions
	cl.keys = map[string]any{"k1": map[string]any{"SSHKEYID": "k1", "name": "laptop"}, "k2": map[string]any{"SSHKEYID": "k2", "name": "macOS Testbed"}, "k3": map[string]any{"SSHKEYID": "k3", "name": "macOS"}}
	cl.oses = map[string]any{"215": map[string]any{"OSID": 215, "name": "Ubuntu 22.04 x64"}, "216": map[string]any{"OSID": 216, "name": "Ubuntu 20.04 x64"}, "217": map[string]any{"OSID": 217, "name": "Debian"}}
	cl.scripts = map[string]any{"3": map[string]any{"SCRIPTID": "3", "name": "increase-sshmaxsessions"}, "4": map[string]any{"SCRIPTID": "4", "name": "wipe"}}
	return func(loc string) map[string]bool {
		m := map[string]bool{}
		for _, x := range rs {
			n := strings.ToLower(x.name)
			if sup[x.id] && n != "seoul" && strings.Contains(n, strings.ToLower(loc)) {
				m[fmt.Sprint(x.id)] = true
			}
		}
		return m
	}
}

// finish runs f and fails if it does not return.
func finish(c *vC, what string, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case e := <-done:
		if e != nil {
			c.Fail("%s panicked: %v", what, e)
		}
	case <-time.After(60 * time.Second):
		c.Fail("%s does not return", what)
	}
}

func checkCreated(c *vC, what string, created []map[string][]string, want map[string]bool, count int, tag string) {
	per := map[string]int{}
	for _, q := range created {
		g := func(k string) string {
			if len(q[k]) == 1 {
				return q[k][0]
			}
			return fmt.Sprint(q[k])
		}
		per[g("DCID")]++
		if g("VPSPLANID") != "523" || g("OSID") != "215" || g("SCRIPTID") != "3" || g("SSHKEYID") != "k2" || g("tag") != tag {
			c.Fail("%s: a server was created as %v", what, q)
		}
	}
	for id := range want {
		if per[id] != count {
			c.Fail("%s: %d servers created in region %s, %d requested", what, per[id], id, count)
		}
	}
	for id, n := range per {
		if !want[id] {
			c.Fail("%s: %d servers created in region %s, which is not supported or not selected", what, n, id)
		}
	}
}

func asMaps[T ~map[string][]string](l []T) (m []map[string][]string) {
	for _, x := range l {
		m = append(m, x)
	}
	return
}

// checkRuns compares the instances started with the request.
func checkRuns(c *vC, what string, cl *cloud, loc string, count int, tag string, ids map[string]string) int {
	n := 0
	for _, r := range cl.aregions {
		runs := cl.arun[r.name]
		sel := r.usable() && r.hasKey && strings.Contains(r.name, strings.ToLower(loc))
		if !sel {
			if len(runs) > 0 {
				c.Fail("%s: instances started in %+v", what, r)
			}
			continue
		}
		if len(runs) != 1 {
			c.Fail("%s: %d requests to start instances in region %s", what, len(runs), r.name)
		}
		q := runs[0]
		sg := r.sg
		if sg == "" {
			sg = r.created
			if cl.sgMade[r.name] != 1 {
				c.Fail("%s: %d security groups made in %s", what, cl.sgMade[r.name], r.name)
			}
		} else if cl.sgMade[r.name] != 0 {
			c.Fail("%s: a security group made in %s, which has one", what, r.name)
		}
		if q.Get("MinCount") != fmt.Sprint(count) || q.Get("MaxCount") != fmt.Sprint(count) || q.Get("ImageId") != ids[r.name] || q.Get("KeyName") != "key-"+r.name || q.Get("SecurityGroupId.1") != sg {
			c.Fail("%s: instances started in %s as %v (image should be %s, group %s)", what, r.name, q, ids[r.name], sg)
		}
		if q.Get("TagSpecification.1.ResourceType") != "instance" || q.Get("TagSpecification.1.Tag.1.Key") != "pika" || q.Get("TagSpecification.1.Tag.1.Value") != tag || q.Get("TagSpecification.2.ResourceType") != "" {
			c.Fail("%s: instances in %s are not tagged %q: %v", what, r.name, tag, q)
		}
		n++
	}
	return n
}

func TestVerifC32(t *testing.T) {
	defer cleanup()
	vMain(t, "C32", func(h *vH) {
		sandbox()
		for i := 0; i < h.N(240, 2400); i++ {
			h.Case(fmt.Sprintf("vultr-%d", i), func(c *vC) {
				cl := newCloud(rand.New(rand.NewSource(c.R.Int63())))
				cl.fillVultr(c.R, c.R.Intn(40))
				use(cl)
				tag := tagPool[c.R.Intn(4)]
				want := map[string]string{}
				for _, s := range cl.vservers {
					if s.eligible(tag) {
						want[s.id] = s.String()
					}
				}
				what := fmt.Sprintf("tag %q, %d servers", tag, len(cl.vservers))
				if i%3 == 0 {
					finish(c, "StopServers", func() { StopServers(tag) })
					once(c, "stop "+what, cl.vdead, want)
					cl.quiet(c, "stop "+what, "destroy")
					c.Seen("stops", 1)
					c.Seen("servers_stopped", len(want))
				} else {
					if i%3 == 1 {
						cl.bootWait = vMin(len(want), 2) // only when another is under way
					}
					finish(c, "RestartServers", func() { RestartServers(tag) })
					once(c, "restart "+what, cl.vboot, want)
					if i%3 == 1 && cl.maxBoot < vMin(len(want), 2) {
						c.Fail("restart %s: %d servers are restarted one after another", what, len(want))
					}
					if cl.inBoot != 0 {
						c.Fail("restart %s returned with %d restarts under way", what, cl.inBoot)
					}
					cl.quiet(c, "restart "+what, "reboot")
					c.Seen("restarts", 1)
					c.Seen("servers_restarted", len(want))
				}
				c.Distinct("vultr %d %s %v", i%3, what, keysOf(want))
			})
		}
		for i := 0; i < h.N(160, 1600); i++ {
			h.Case(fmt.Sprintf("vstart-%d", i), func(c *vC) {
				cl := newCloud(rand.New(rand.NewSource(c.R.Int63())))
				price := pick(c.R, 5.0, 80.0, 17.5)
				exp := cl.vplan(c.R, price)
				use(cl)
				loc := pick(c.R, "", "a", "new", "TOKYO", "seoul", "s", "Angeles", "nowhere", "São")
				count, tag := c.R.Intn(5), pick(c.R, "ouroboros", "x y&z", "t")
				want := exp(loc)
				var got []govultr.Server
				finish(c, "StartServers", func() { got = StartServers(tag, price, loc, count) })
				what := fmt.Sprintf("start %d in %q", count, loc)
				checkCreated(c, what, asMaps(cl.created), want, count, tag)
				if len(got) != len(cl.created) {
					c.Fail("%s: %d servers created, %d returned", what, len(cl.created), len(got))
				}
				ids := map[string]bool{}
				for _, s := range got {
					ids[s.InstanceID] = true
				}
				if len(ids) != len(got) {
					c.Fail("%s: servers returned more than once", what)
				}
				cl.quiet(c, what, "create")
				c.Seen("starts", 1)
				c.Seen("servers_started", len(got))
				c.Distinct("vstart %s %v", what, keysOf(want))
			})
		}
		for i := 0; i < h.N(160, 1600); i++ {
			h.Case(fmt.Sprintf("aws-%d", i), func(c *vC) {
				cl := newCloud(rand.New(rand.NewSource(c.R.Int63())))
				cl.fillAWS(c.R, []int{2, 12}[c.R.Intn(2)])
				use(cl)
				tag := tagPool[c.R.Intn(4)]
				what := fmt.Sprintf("AWS stop tag %q in %d regions", tag, len(cl.aregions))
				want := map[string]string{}
				for _, r := range cl.aregions {
					for _, x := range cl.ainst[r.name] {
						if r.usable() && x.tagged && x.tag == tag && x.code&255 == 16 {
							want[x.id] = fmt.Sprintf("%+v in %s", x, r.name)
						}
					}
				}
				var err error
				finish(c, "AWSStopServersAtAllRegions", func() { err = AWSStopServersAtAllRegions(tag) })
				if err != nil {
					c.Fail("%s: %v", what, err)
				}
				once(c, what, cl.adead, want)
				cl.quiet(c, what, "terminate")
				c.Seen("aws_stops", 1)
				c.Seen("aws_servers_stopped", len(want))
				c.Distinct("%s %v", what, keysOf(want))
			})
		}
		for i := 0; i < h.N(160, 1600); i++ {
			h.Case(fmt.Sprintf("astart-%d", i), func(c *vC) {
				cl := newCloud(rand.New(rand.NewSource(c.R.Int63())))
				cl.fillAWS(c.R, 2)
				var ids map[string]string
				cl.table, ids = imageTable(c.R, regionPool)
				use(cl)
				AWSImageList = ""
				loc := pick(c.R, "", "us-", "west", "EU", "ap-southeast", "-1", "nowhere")
				count, tag := 1+c.R.Intn(9), pick(c.R, "ouroboros", "x y&z")
				what := fmt.Sprintf("AWS start %d in %q of %d regions", count, loc, len(cl.aregions))
				var err error
				finish(c, "AWSStartInstanceAtRegions", func() { err = AWSStartInstanceAtRegions(loc, count, tag) })
				if err != nil {
					c.Fail("%s: %v", what, err)
				}
				n := checkRuns(c, what, cl, loc, count, tag, ids)
				cl.quiet(c, what, "run", "group")
				c.Seen("aws_starts", 1)
				c.Seen("aws_regions_started", n)
				c.Distinct("%s %d %v", what, n, len(cl.sgMade))
			})
		}
		commands(h)
	})
}

// ---- C33 -----------------------------------------------------------------------

func text(r *rand.Rand) string {
	n := r.Intn(12)
	s := ""
	for k := 0; k < n; k++ {
		s += string(pick(r, 'a', 'b', 'Z', '<', '>', '&', '"', '\\', '/', 'é', '東', '\n', ' ', '\u2028', '😀', '0'))
	}
	return s
}

func sortedServers(c *vC, what string, l []Server) {
	for k := 1; k < len(l); k++ {
		a, b := l[k-1], l[k]
		if a.Location > b.Location || a.Location == b.Location && a.ID > b.ID {
			c.Fail("%s: entry %d (%q, %q) comes after (%q, %q)", what, k, b.Location, b.ID, a.Location, a.ID)
		}
	}
}

func sameServers(c *vC, what string, got, want []Server) {
	sort.Slice(want, func(a, b int) bool {
		if want[a].Location != want[b].Location {
			return want[a].Location < want[b].Location
		}
		return want[a].ID < want[b].ID
	})
	if len(got) != len(want) {
		c.Fail("%s: %d servers read back, %d written", what, len(got), len(want))
	}
	sortedServers(c, what, got)
	for k := range want {
		if got[k] != want[k] {
			c.Fail("%s: entry %d read back as %+v, should be %+v", what, k, got[k], want[k])
		}
	}
}

// wantAWS is what a listing should contain.
func wantAWS(cl *cloud, dir, tag string) (want []Server) {
	for _, r := range cl.aregions {
		for _, x := range cl.ainst[r.name] {
			if r.usable() && x.tagged && (tag == "" || x.tag == tag) && x.code&255 == 16 {
				want = append(want, Server{ID: x.id, PublicIP: x.pub, PrivateIP: x.priv, Port: 22, User: "ubuntu", KeyPath: dir + "/.ssh/pikaaws", Location: r.name, Tag: tag, Provider: "aws"})
			}
		}
	}
	return
}

func wantVultr(cl *cloud, dir, tag string) (want []Server) {
	for _, s := range cl.vservers {
		if tag == "" || s.tag == tag {
			want = append(want, Server{ID: s.id, PublicIP: s.ip, PrivateIP: s.ip, Port: 22, User: "root", KeyPath: dir + "/.ssh/vultr", Location: s.loc, Tag: s.tag, Provider: "vultr"})
		}
	}
	return
}

func TestVerifC33(t *testing.T) {
	defer cleanup()
	vMain(t, "C33", func(h *vH) {
		dir := sandbox()
		for i := 0; i < h.N(400, 4000); i++ {
			h.Case(fmt.Sprintf("file-%d", i), func(c *vC) {
				path := filepath.Join(dir, fmt.Sprintf("servers-%d-%d.json", os.Getpid(), i))
				defer os.Remove(path)
				if c.R.Intn(3) == 0 { // an older, longer file is there
					os.WriteFile(path, []byte(strings.Repeat("[{\"ID\":\"old\"}]\n", 500)), 0644)
				}
				n := c.R.Intn(60)
				if c.R.Intn(8) == 0 {
					n = 0
				}
				locs := pick(c.R, 1, 3, 30)
				used := map[[2]string]bool{}
				id := func(k int) string {
					return pick(c.R, fmt.Sprint(c.R.Intn(2000)), fmt.Sprintf("i-%x", c.R.Uint32()), text(c.R)+fmt.Sprint(k))
				}
				var locName []string
				for k := 0; k < locs; k++ {
					locName = append(locName, pick(c.R, text(c.R), locPool[c.R.Intn(len(locPool))], regionPool[c.R.Intn(len(regionPool))]))
				}
				var want []Server
				what := ""
				if i%2 == 0 {
					what = "Vultr list"
					var l []govultr.Server
					for k := 0; k < n; k++ {
						s := govultr.Server{InstanceID: id(k), MainIP: text(c.R), Location: pick(c.R, locName...), Tag: text(c.R), InternalIP: "10.0.0.1", Status: "active", RegionID: "4"}
						if used[[2]string{s.Location, s.InstanceID}] {
							continue
						}
						used[[2]string{s.Location, s.InstanceID}] = true
						l = append(l, s)
						want = append(want, Server{ID: s.InstanceID, PublicIP: s.MainIP, PrivateIP: s.MainIP, Port: 22, User: "root", KeyPath: dir + "/.ssh/vultr", Location: s.Location, Tag: s.Tag, Provider: "vultr"})
					}
					DumpServerInfo(path, l)
				} else {
					what = "AWS list"
					var l []AWSServer
					for k := 0; k < n; k++ {
						s := AWSServer{Region: pick(c.R, locName...), ID: id(k), PublicIP: text(c.R), PrivateIP: text(c.R), Tag: text(c.R)}
						if used[[2]string{s.Region, s.ID}] {
							continue
						}
						used[[2]string{s.Region, s.ID}] = true
						l = append(l, s)
						want = append(want, Server{ID: s.ID, PublicIP: s.PublicIP, PrivateIP: s.PrivateIP, Port: 22, User: "ubuntu", KeyPath: dir + "/.ssh/pikaaws", Location: s.Region, Tag: s.Tag, Provider: "aws"})
					}
					AWSDumpServerInfo(path, l)
				}
				first, _ := os.ReadFile(path)
				var doc []Server
				if err := json.Unmarshal(first, &doc); err != nil || len(doc) != len(want) {
					c.Fail("%s: the file written for %d servers is not a list of them: %v (%d)", what, len(want), err, len(doc))
				}
				sameServers(c, what, ReadServerInfo(path), want)
				if again, _ := os.ReadFile(path); string(again) != string(first) {
					c.Fail("%s: reading changed the file", what)
				}
				c.Seen("files", 1)
				c.Seen("servers_written", len(want))
				c.Distinct("%s n=%d locs=%d", what, len(want), locs)
			})
		}
		for i := 0; i < h.N(200, 2000); i++ {
			h.Case(fmt.Sprintf("list-%d", i), func(c *vC) {
				cl := newCloud(rand.New(rand.NewSource(c.R.Int63())))
				use(cl)
				path := filepath.Join(dir, fmt.Sprintf("list-%d-%d.json", os.Getpid(), i))
				defer os.Remove(path)
				tag := tagPool[c.R.Intn(6)]
				var want []Server
				what := ""
				if i%3 != 0 {
					cl.fillAWS(c.R, pick(c.R, 2, 15))
					what = fmt.Sprintf("AWS listing tag %q in %d regions", tag, len(cl.aregions))
					want = wantAWS(cl, dir, tag)
					var l []AWSServer
					var err error
					finish(c, "AWSListServersAtAllRegions", func() { l, err = AWSListServersAtAllRegions(tag) })
					if err != nil {
						c.Fail("%s: %v", what, err)
					}
					AWSDumpServerInfo(path, l)
				} else {
					cl.fillVultr(c.R, c.R.Intn(50))
					what = fmt.Sprintf("Vultr listing tag %q", tag)
					want = wantVultr(cl, dir, tag)
					var l []govultr.Server
					finish(c, "CheckServerStatus", func() { l = CheckServerStatus(tag) })
					DumpServerInfo(path, l)
				}
				got := ReadServerInfo(path)
				if strings.HasPrefix(what, "AWS") && tag == "" {
					for k := range got { // the listing may name the tags or not
						got[k].Tag = ""
					}
				}
				sameServers(c, what, got, want)
				cl.quiet(c, what)
				c.Seen("listings", 1)
				c.Seen("servers_listed", len(want))
				c.Distinct("%s %d", what, len(want))
			})
		}
		for i := 0; i < h.N(16, 64); i++ {
			h.Case(fmt.Sprintf("burst-%d", i), func(c *vC) {
				cl := newCloud(rand.New(rand.NewSource(c.R.Int63())))
				cl.hasty = true
				per, n := pick(c.R, 1, 3, 60), 0
				var want []string
				for k := 0; k < 40; k++ {
					reg := aregion{name: fmt.Sprintf("eu-west-%d", k), optIn: "opted-in"}
					cl.aregions = append(cl.aregions, reg)
					for j := 0; j < per; j++ {
						n++
						x := ainstance{id: fmt.Sprintf("i-%08d", n), pub: "1.2.3.4", priv: "10.0.0.1", tagged: true, tag: "t", code: 16, name: "running"}
						cl.ainst[reg.name] = append(cl.ainst[reg.name], x)
						want = append(want, x.id)
					}
				}
				use(cl)
				for rep := 0; rep < h.N(15, 60); rep++ {
					cl.mu.Lock()
					cl.together, cl.waiting = len(cl.aregions), 0
					cl.mu.Unlock()
					var l []AWSServer
					var err error
					finish(c, "AWSListServersAtAllRegions", func() { l, err = AWSListServersAtAllRegions("t") })
					var got []string
					for _, s := range l {
						got = append(got, s.ID)
					}
					sort.Strings(got)
					if err != nil || strings.Join(got, " ") != strings.Join(want, " ") {
						c.Fail("listing 40 regions answering at once: %d servers listed, %d are running (%v)", len(got), len(want), err)
					}
					c.Seen("listings", 1)
					c.Seen("bursts", 1)
				}
				c.Distinct("burst %d", per)
			})
		}
		statusCommands(h)
	})
}

// ---- C34 -----------------------------------------------------------------------

// imageTable makes a release table; ids is what should be found.
func imageTable(r *rand.Rand, regions []string) (string, map[string]string) {
	ids := map[string]string{}
	var rows []string
	row := func(region, series, version, arch, id string) string {
		return fmt.Sprintf(`["%s","%s","%s","%s","hvm:ebs-ssd","%08d","<a href=\"https://console.aws.amazon.com/ec2/home?region=%s#launchAmi=%s\">%s</a>","hvm"],`, region, series, version, arch, 20220000+r.Intn(9999), region, id, id)
	}
	for _, x := range regions {
		ids[x] = fmt.Sprintf("ami-%017x", r.Uint64()>>1)
		rows = append(rows, row(x, "focal", "20.04 LTS", "amd64", ids[x]))
		for k := r.Intn(4); k > 0; k-- {
			s := pick(r, [3]string{"jammy", "22.04 LTS", "amd64"}, [3]string{"focal", "20.04 LTS", "arm64"}, [3]string{"bionic", "18.04 LTS", "amd64"}, [3]string{"impish", "21.10", "amd64"})
			rows = append(rows, row(x, s[0], s[1], s[2], fmt.Sprintf("ami-%017x", r.Uint64()>>1)))
		}
		if r.Intn(3) == 0 { // names that contain this one
			rows = append(rows, row(x+"-lax-1a", "focal", "20.04 LTS", "amd64", "ami-0wrong"))
		}
	}
	r.Shuffle(len(rows), func(a, b int) { rows[a], rows[b] = rows[b], rows[a] })
	return "{\n\"aaData\": [\n" + strings.Join(rows, "\n") + "\n]\n}\n", ids
}

func TestVerifC34(t *testing.T) {
	defer cleanup()
	vMain(t, "C34", func(h *vH) {
		sandbox()
		for i := 0; i < h.N(400, 4000); i++ {
			h.Case(fmt.Sprintf("images-%d", i), func(c *vC) {
				cl := newCloud(rand.New(rand.NewSource(c.R.Int63())))
				var ids map[string]string
				cl.table, ids = imageTable(c.R, regionPool)
				use(cl)
				AWSImageList = ""
				if i%3 != 0 {
					cl.failNext, cl.failHow = c.R.Intn(5), c.R.Intn(3)
				}
				fails := cl.failNext
				n := 1 + c.R.Intn(30)
				var wg sync.WaitGroup
				type ans struct {
					region, id string
					err        error
				}
				res := make([]ans, n)
				var back int64
				for k := 0; k < n; k++ {
					k := k
					res[k].region = pick(c.R, regionPool...)
					d := time.Duration(c.R.Intn(800)) * time.Microsecond
					wg.Add(1)
					go func() {
						defer wg.Done()
						if k%2 == 1 {
							time.Sleep(d)
						}
						id, err := AWSGetImageID(res[k].region)
						res[k].id, res[k].err = id, err
						atomic.AddInt64(&back, 1)
					}()
				}
				done := make(chan bool)
				go func() { wg.Wait(); close(done) }()
				select {
				case <-done:
				case <-time.After(30 * time.Second):
					c.Fail("%d concurrent lookups with %d failing fetches (kind %d): only %d came back", n, fails, cl.failHow, atomic.LoadInt64(&back))
				}
				errs := 0
				for _, a := range res {
					if a.err != nil {
						errs++
						continue
					}
					if a.id != ids[a.region] {
						c.Fail("lookup of %s gives %q, listed is %q (%d failing fetches of kind %d)", a.region, a.id, ids[a.region], fails, cl.failHow)
					}
				}
				if errs > 0 && fails == 0 {
					c.Fail("%d lookups failed though no fetch did", errs)
				}
				if fails == 0 && cl.fetches != 1 {
					c.Fail("%d lookups fetched the list %d times", n, cl.fetches)
				}
				if cl.okServed > 1 {
					c.Fail("the list was fetched %d times", cl.okServed)
				}
				// once the fetch works, everything does
				cl.mu.Lock()
				cl.failNext = 0
				cl.mu.Unlock()
				for _, r := range regionPool {
					id := ""
					var err error
					finish(c, "AWSGetImageID", func() { id, err = AWSGetImageID(r) })
					if err != nil || id != ids[r] {
						c.Fail("after the failures lookup of %s gives %q, %v, listed is %q", r, id, err, ids[r])
					}
				}
				c.Seen("lookups", n)
				c.Seen("failed_fetches", fails)
				c.Seen("failed_lookups", errs)
				c.Distinct("images n=%d fails=%d kind=%d errs=%d", n, fails, cl.failHow, errs)
			})
		}
		for i := 0; i < h.N(400, 4000); i++ {
			h.Case(fmt.Sprintf("fanout-%d", i), func(c *vC) {
				n := c.R.Intn(40)
				var servers []Server
				var clients []*ssh.Client
				at := map[*ssh.Client]int{}
				for k := 0; k < n; k++ {
					servers = append(servers, Server{ID: fmt.Sprint("id", k), PublicIP: fmt.Sprint("10.0.0.", k), Location: pick(c.R, locPool...), Port: k})
					cl := &ssh.Client{}
					clients = append(clients, cl)
					at[cl] = k
				}
				calls := make([]int32, n)
				var wrong atomic.Value
				var running, max, ended int32
				together := i%2 == 0 // each call waits for another
				errKind := make([]int, n)
				for k := range errKind {
					if c.R.Intn(3) == 0 {
						errKind[k] = 1 + c.R.Intn(4)
					}
				}
				delay := make([]time.Duration, n)
				for k := range delay {
					delay[k] = time.Duration(c.R.Intn(2000)) * time.Microsecond
				}
				finish(c, "runAll", func() {
					err := runAll(servers, clients, func(k int, s Server, cl *ssh.Client) error {
						if k < 0 || k >= n || at[cl] != k || s != servers[k] {
							wrong.Store(fmt.Sprintf("called with index %d, server %s and the connection of server %d", k, s.ID, at[cl]))
							return nil
						}
						atomic.AddInt32(&calls[k], 1)
						r := atomic.AddInt32(&running, 1)
						for {
							m := atomic.LoadInt32(&max)
							if r <= m || atomic.CompareAndSwapInt32(&max, m, r) {
								break
							}
						}
						for until := time.Now().Add(10 * time.Second); together && int(atomic.LoadInt32(&max)) < vMin(n, 2) && time.Now().Before(until); {
							time.Sleep(50 * time.Microsecond)
						}
						time.Sleep(delay[k])
						atomic.AddInt32(&running, -1)
						atomic.AddInt32(&ended, 1)
						switch errKind[k] {
						case 1:
							return fmt.Errorf("injected")
						case 2:
							return &ssh.ExitError{}
						case 3:
							return &exec.ExitError{Stderr: []byte("injected")}
						case 4:
							return RemoteError{nil, "injected"}
						}
						return nil
					})
					if err != nil {
						wrong.Store(fmt.Sprintf("runAll returned %v", err))
					}
					if e := atomic.LoadInt32(&ended); int(e) != n {
						wrong.Store(fmt.Sprintf("returned when %d of %d calls had ended", e, n))
					}
				})
				if w := wrong.Load(); w != nil {
					c.Fail("%d servers: %s", n, w)
				}
				for k := range calls {
					if calls[k] != 1 {
						c.Fail("%d servers: the command was run %d times for server %d", n, calls[k], k)
					}
				}
				if together && int(max) < vMin(n, 2) {
					c.Fail("%d servers: at most %d calls were under way at once", n, max)
				}
				c.Seen("fanouts", 1)
				c.Seen("calls", n)
				c.Max("calls_at_once", int64(max))
				c.Distinct("fanout n=%d errors=%v", n, errKind)
			})
		}
	})
}
