// Package d01 checks container deployments: docker-compose files and kubernetes manifests that the real compiler generates
// are read as docker compose and kubernetes read them, and what every container gets is compared with what it needs.
package d01

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/plugins/docker"
	"github.com/blueprint-uservices/blueprint/plugins/dockercompose"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubepod"
	"github.com/blueprint-uservices/blueprint/plugins/linux"
	"verif.local/h/rep"
)

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	apps(r)
	values(r)
	names(r)
	graphs(r)
	absent(r)
	kubeGraphs(r)
}

// ctr is a container: of a public image, or of one that is built.
type ctr struct {
	name  string
	build bool
	edges []ir.IRNode
	more  func(ws docker.ContainerWorkspace) error
}

func (c *ctr) Name() string               { return c.name }
func (c *ctr) String() string             { return c.name }
func (c *ctr) ImplementsDockerContainer() {}
func (c *ctr) AddContainerArtifacts(ws docker.ContainerWorkspace) error {
	if !c.build {
		return nil
	}
	dir, err := ws.CreateImageDir(c.name)
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "Dockerfile"), []byte(c.name), 0644)
}
func (c *ctr) AddContainerInstance(ws docker.ContainerWorkspace) error {
	var err error
	if c.build {
		err = ws.DeclareLocalImage(c.name, ir.CleanName(c.name), c.edges...)
	} else {
		err = ws.DeclarePrebuiltInstance(c.name, "image/of-"+ir.CleanName(c.name)+":1.0", c.edges...)
	}
	if err == nil && c.more != nil {
		err = c.more(ws)
	}
	return err
}

// conf is a configuration value.
type conf struct {
	name, value string
	optional    bool
}

func (c *conf) Name() string        { return c.name }
func (c *conf) String() string      { return c.name }
func (c *conf) Optional() bool      { return c.optional }
func (c *conf) HasValue() bool      { return c.value != "" }
func (c *conf) Value() string       { return c.value }
func (c *conf) ImplementsIRConfig() {}

func bind(addr string, port, pref uint16) *address.BindConfig {
	b := &address.BindConfig{PreferredPort: pref}
	b.AddressName, b.Key, b.Port = addr+".addr", addr+".bind_addr", port
	return b
}

func dial(addr string) *address.DialConfig {
	d := &address.DialConfig{}
	d.AddressName, d.Key = addr+".addr", addr+".dial_addr"
	return d
}

func scratch() string {
	dir, err := os.MkdirTemp("", "d01")
	if err != nil {
		panic(err)
	}
	return dir
}

func deploy(dir string, cs ...*ctr) error {
	d := &dockercompose.Deployment{DeploymentName: "dep"}
	for _, c := range cs {
		d.Nodes = append(d.Nodes, c)
	}
	return d.GenerateArtifacts(dir)
}

// ---------------------------------------------------------------- values

var odd = []string{"plain", "two words", " lead", "trail ", "a: b", "a #b", "#c", "'q'", "\"q\"", "it's", "$HOME", "a$$b", "${X}", "50%", "%", "a\tb", "a\nb", "é",
	"{a}", "[a]", "*", "&a", "!x", "|", ">", "- x", "?", "a=b", "a&b<c>", "\\", "`x`", "$(OTHER)", "$$(OTHER)", "$", "$(", "null", "true", "1", "", "@", "a,b", "x+y"}

func values(r *rep.R) {
	keys := []string{"PASSWORD", "a.key"}
	const channels = 4
	r.Enum("values of settings", channels*len(odd)*len(odd)*len(keys)*2, 0, func(i int) (c rep.Case) {
		d := rep.Digits(i, channels, len(odd), len(odd), len(keys), 2)
		dir := scratch()
		defer os.RemoveAll(dir)
		v, w, key := odd[d[1]], odd[d[2]], keys[d[3]]
		c.Sig = []string{"environment", "command", "volumes", "custom"}[d[0]]
		c.Input = fmt.Sprintf("%s: %q and %q, key %s, built %v", c.Sig, v, w, key, d[4] == 1)
		ct := &ctr{name: "my.ctr", build: d[4] == 1}
		plain := func(s string) bool {
			return s != "" && s != "null" && s != "true" && s != "1" && strings.TrimSpace(s) == s && !strings.ContainsAny(s, "\t\n:$#{}[]*&!|>-?%@`\\\"',~=<")
		}
		switch d[0] {
		case 2, 3:
			if !plain(v) || !plain(w) {
				c.Outcome = "not meaningful"
				return
			}
		}
		ct.more = func(ws docker.ContainerWorkspace) error {
			switch d[0] {
			case 0:
				if err := ws.SetEnvironmentVariable("my.ctr", key, v); err != nil {
					return err
				}
				return ws.SetEnvironmentVariable("my.ctr", "OTHER", w)
			case 1:
				return ws.SetCustomCommand("my.ctr", []string{"cmd", v, "--x", w})
			case 2:
				for _, e := range [][2]string{{"./" + v, "/a"}, {v, "/b/" + w}, {v, "/c"}} {
					if err := ws.AddVolume("my.ctr", e[0], e[1]); err != nil {
						return err
					}
				}
				return nil
			default:
				if err := ws.AddCustomConf("my.ctr", "gpus", v); err != nil {
					return err
				}
				return ws.AddCustomConf("my.ctr", "user", w)
			}
		}
		if err := deploy(dir, ct); err != nil {
			c.Msgs = append(c.Msgs, err.Error())
			return
		}
		env := map[string]string{"X": "substituted", "HOME": "/wrong", "OTHER": "wrong"}
		got, err := compose(filepath.Join(dir, "docker-compose.yml"), env)
		if err != nil {
			c.Msgs = append(c.Msgs, err.Error())
			return
		}
		s := got["my_ctr"]
		if s == nil || len(got) != 1 {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the services are %v", got))
			return
		}
		want := &service{name: "my_ctr", hostname: "my_ctr", env: map[string]string{}, other: map[string]string{"restart": "always"}}
		if ct.build {
			want.context, want.dockerfile = "my_ctr", "./Dockerfile"
		} else {
			want.image = "image/of-my_ctr:1.0"
		}
		switch d[0] {
		case 0:
			want.env[linux.EnvVar(key)], want.env["OTHER"] = v, w
		case 1:
			want.command = []string{"cmd", v, "--x", w}
		case 2:
			want.volumes = []string{"./" + v + ":/a", v + ":/b/" + w, v + ":/c"}
		case 3:
			want.other["gpus"], want.other["user"] = v, w
		}
		sort.Strings(s.volumes)
		sort.Strings(want.volumes)
		if a, b := fmt.Sprintf("%q", *s), fmt.Sprintf("%q", *want); a != b {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the file says %s rather than %s", a, b))
		}
		if d[0] == 2 {
			if f, err := os.ReadFile(filepath.Join(dir, "docker-compose.yml")); err != nil || !declared(f, v) {
				c.Msgs = append(c.Msgs, fmt.Sprintf("the volume %q is not declared", v))
			}
		}
		c.Outcome = c.Sig
		return
	})
	r.Enum("values of settings in pods", len(odd)*len(odd)*len(keys)*2, 0, func(i int) (c rep.Case) {
		d := rep.Digits(i, len(odd), len(odd), len(keys), 2)
		dir := scratch()
		defer os.RemoveAll(dir)
		v, w, key := odd[d[0]], odd[d[1]], keys[d[2]]
		c.Sig, c.Outcome = "pod-environment", "environment"
		c.Input = fmt.Sprintf("%q and %q, key %s, command %v", v, w, key, d[3] == 1)
		ct := &ctr{name: "my.ctr", more: func(ws docker.ContainerWorkspace) error {
			if d[3] == 1 {
				if err := ws.SetCustomCommand("my.ctr", []string{"cmd", v, "--x", w}); err != nil {
					return err
				}
			}
			if err := ws.SetEnvironmentVariable("my.ctr", key, v); err != nil {
				return err
			}
			return ws.SetEnvironmentVariable("my.ctr", "OTHER", w)
		}}
		p, err := onePod(dir, "p", ct)
		if err != nil {
			c.Msgs = append(c.Msgs, err.Error())
			return
		}
		k := p.containers["my-ctr"]
		if k == nil || len(p.containers) != 1 {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the containers are %v", p.containers))
			return
		}
		want := map[string]string{linux.EnvVar(key): v, "OTHER": w}
		var args []string
		if d[3] == 1 {
			args = []string{"cmd", v, "--x", w}
		}
		if a, b := fmt.Sprintf("%q %q", k.env, k.args), fmt.Sprintf("%q %q", want, args); a != b || k.image != "image/of-my_ctr:1.0" {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the environment is %s rather than %s, the image %s", a, b, k.image))
		}
		return
	})
}

func onePod(dir, name string, cs ...*ctr) (*pod, error) {
	p := &kubepod.PodDeployment{PodName: name}
	for _, c := range cs {
		p.Nodes = append(p.Nodes, c)
	}
	if err := p.GenerateArtifacts(dir); err != nil {
		return nil, err
	}
	n := kubepod.KubernetesName(name)
	return kubePod(filepath.Join(dir, n+"-deployment.yaml"), filepath.Join(dir, n+"-service.yaml"))
}

// ---------------------------------------------------------------- names

func names(r *rep.R) {
	ns := []string{"a", "a.b", "a_b", "a-b", "A", "a.b.c", "ab", "b"}
	n := len(ns)
	r.Enum("names of containers", n*n*4*3, 0, func(i int) (c rep.Case) {
		d := rep.Digits(i, n, n, 2, 2, 3)
		dir := scratch()
		defer os.RemoveAll(dir)
		x, y := ns[d[0]], ns[d[1]]
		c.Sig = []string{"compose-names", "pod-names", "app-names"}[d[4]]
		c.Input = fmt.Sprintf("%s: %s (built: %v) and %s (built: %v)", c.Sig, x, d[2], y, d[3])
		cs := []*ctr{{name: x, build: d[2] == 1}, {name: y, build: d[3] == 1}}
		refusable := ir.CleanName(x) == ir.CleanName(y)
		got := map[string]string{}
		var err error
		switch d[4] {
		case 0:
			if err = deploy(dir, cs...); err == nil {
				var ss map[string]*service
				if ss, err = compose(filepath.Join(dir, "docker-compose.yml"), nil); err == nil {
					for k, s := range ss {
						got[k] = s.image + s.context
						if s.hostname != k {
							c.Msgs = append(c.Msgs, fmt.Sprintf("%s has the host name %s", k, s.hostname))
						}
					}
					for k, ct := range cs {
						want := "image/of-" + ir.CleanName(ct.name) + ":1.0"
						if ct.build {
							want = ir.CleanName(ct.name)
							b, err := os.ReadFile(filepath.Join(dir, want, "Dockerfile"))
							if err != nil || string(b) != ct.name {
								c.Msgs = append(c.Msgs, fmt.Sprintf("the image of %s has %q, %v", ct.name, b, err))
							}
						}
						if got[ir.CleanName(ct.name)] != want || len(got) != 2 {
							c.Msgs = append(c.Msgs, fmt.Sprintf("container %d: %v", k, got))
						}
					}
				}
			}
		case 1:
			refusable = refusable || strings.EqualFold(ir.CleanName(x), ir.CleanName(y))
			var p *pod
			if p, err = onePod(dir, "p", cs...); err == nil {
				images := map[string]bool{}
				for _, k := range p.containers {
					images[k.image] = true
				}
				for k, ct := range cs {
					if !ct.build && !images["image/of-"+ir.CleanName(ct.name)+":1.0"] || len(images) != 2 || images[""] {
						c.Msgs = append(c.Msgs, fmt.Sprintf("container %d: %v", k, images))
					}
				}
			}
		case 2:
			// here the names are those of pods
			refusable = strings.EqualFold(strings.NewReplacer(".", "-", "_", "-").Replace(x), strings.NewReplacer(".", "-", "_", "-").Replace(y))
			if d[2]+d[3] > 0 {
				c.Outcome = "not meaningful"
				return
			}
			app := &kubernetes.Application{AppName: "app"}
			for k, n := range []string{x, y} {
				a := fmt.Sprintf("s%d", k)
				ct := &ctr{name: fmt.Sprintf("c%d", k), edges: []ir.IRNode{bind(a, 0, 0), dial(fmt.Sprintf("s%d", 1-k))}}
				app.Nodes = append(app.Nodes, &kubepod.PodDeployment{PodName: n, Nodes: []ir.IRNode{ct}})
			}
			if err = app.GenerateArtifacts(dir); err == nil {
				c.Msgs = append(c.Msgs, readApp(dir, app, nil)...)
			}
		}
		c.Outcome = "generated"
		if err != nil {
			c.Outcome = "refused"
			if !refusable {
				c.Msgs = append(c.Msgs, err.Error())
			}
		} else if x == y || refusable && len(c.Msgs) == 0 && x != y && d[4] == 0 {
			c.Msgs = append(c.Msgs, "it is not refused")
		}
		return
	})
	// pairs of settings of one container
	r.Enum("names of settings", n*n*4*4*2, 0, func(i int) (c rep.Case) {
		d := rep.Digits(i, n, n, 4, 4, 2)
		dir := scratch()
		defer os.RemoveAll(dir)
		c.Sig = "names-of-settings"
		mk := func(k int, name string) ir.IRNode {
			switch k {
			case 0:
				return &conf{name: name}
			case 1:
				b := bind("sb."+name, 0, 0)
				b.Key = name
				return b
			case 2:
				b := dial("sd." + name)
				b.Key = name
				return b
			default:
				b := dial("other")
				b.Key = name
				return b
			}
		}
		x, y := mk(d[2], ns[d[0]]), mk(d[3], ns[d[1]])
		o := bind("other", 0, 0)
		in := []*ctr{{name: "my", edges: []ir.IRNode{x, y}}, {name: "oth", edges: []ir.IRNode{o}}}
		c.Input = fmt.Sprintf("%T %s and %T %s, pod %v", x, ns[d[0]], y, ns[d[1]], d[4] == 1)
		if d[4] == 1 {
			if d[2] == 0 || d[3] == 0 {
				c.Outcome = "not meaningful"
				return
			}
			app := &kubernetes.Application{AppName: "app", Nodes: []ir.IRNode{&kubepod.PodDeployment{PodName: "p", Nodes: []ir.IRNode{in[0], in[1]}}}}
			for _, e := range []ir.IRNode{x, y} {
				if dl, ok := e.(*address.DialConfig); ok && dl.AddressName != "other.addr" {
					far := bind("", 0, 0)
					far.AddressName, far.Key = dl.AddressName, "far.bind"
					app.Nodes = append(app.Nodes, &kubepod.PodDeployment{PodName: "q" + strconv.Itoa(len(app.Nodes)), Nodes: []ir.IRNode{&ctr{name: "far", edges: []ir.IRNode{far}}}})
				}
			}
			err := app.GenerateArtifacts(dir)
			c.Outcome = "generated"
			if err != nil {
				c.Outcome = "refused"
				if linux.EnvVar(ns[d[0]]) != linux.EnvVar(ns[d[1]]) {
					c.Msgs = append(c.Msgs, err.Error())
				}
				return
			}
			c.Msgs = append(c.Msgs, readApp(dir, app, nil)...)
			return
		}
		err := deploy(dir, in...)
		c.Outcome = "generated"
		if err != nil {
			c.Outcome = "refused"
			if linux.EnvVar(ns[d[0]]) != linux.EnvVar(ns[d[1]]) {
				c.Msgs = append(c.Msgs, err.Error())
			}
			return
		}
		c.Msgs = append(c.Msgs, judge(dir, in, nil)...)
		return
	})
}

// ---------------------------------------------------------------- graphs of containers

// world gives the values of the calling environment.
func world(cs []*ctr) map[string]string {
	env := map[string]string{}
	for k, c := range cs {
		for j, e := range c.edges {
			switch n := e.(type) {
			case *address.BindConfig:
				env[linux.EnvVar(n.Name())] = fmt.Sprintf("0.0.0.0:%d", 40000+100*k+j)
			case *address.DialConfig:
				env[linux.EnvVar(n.Name())] = "far." + n.AddressName + ":99"
			default:
				env[linux.EnvVar(n.Name())] = "the value: '" + n.Name() + "' $x #"
			}
		}
	}
	return env
}

// judge compares a generated file with what the containers need; fixed are the ports of servers that cannot be told where to listen.
func judge(dir string, cs []*ctr, fixed map[*address.BindConfig]uint16) (msgs []string) {
	bad := func(f string, a ...any) { msgs = append(msgs, fmt.Sprintf(f, a...)) }
	env := world(cs)
	got, err := compose(filepath.Join(dir, "docker-compose.yml"), env)
	if err != nil {
		return []string{err.Error()}
	}
	if len(got) != len(cs) {
		bad("%d containers", len(got))
	}
	at := map[string]string{} // where the server of an address listens
	host := map[string]string{}
	for _, c := range cs {
		name := ir.CleanName(c.name)
		s := got[name]
		if s == nil {
			bad("%s is not there", c.name)
			continue
		}
		if c.build && (s.context != name || s.image != "") || !c.build && (s.image != "image/of-"+name+":1.0" || s.context != "") || s.hostname != name {
			bad("%s: %+v", c.name, *s)
		}
		used := map[string]string{}
		mapped := 0
		for _, e := range c.edges {
			b, ok := e.(*address.BindConfig)
			if !ok {
				continue
			}
			ext := env[linux.EnvVar(b.Name())]
			h, hp, _ := strings.Cut(ext, ":")
			// the container port that the file publishes for this address
			port := ""
			for _, p := range s.ports {
				if p[0] == h && p[1] == hp {
					if port != "" {
						bad("%s is published twice", b.Name())
					}
					port = p[2]
					mapped++
				}
			}
			if port == "" || port == "0" {
				bad("%s is not published: %v", b.Name(), s.ports)
				continue
			}
			if o := used[port]; o != "" {
				bad("%s and %s both listen on %s", o, b.Name(), port)
			}
			used[port] = b.Name()
			found := false
			for _, x := range s.expose {
				found = found || x == port
			}
			if !found {
				bad("%s: port %s is not exposed", c.name, port)
			}
			if pre, ok := fixed[b]; ok {
				if port != strconv.Itoa(int(pre)) {
					bad("%s listens on %d and %s is published", b.Name(), pre, port)
				}
			} else if v := s.env[linux.EnvVar(b.Name())]; v != "0.0.0.0:"+port {
				bad("%s is told to bind %q, published is %s", c.name, v, port)
			}
			at[b.AddressName] = name + ":" + port
			if o := host[ext]; o != "" {
				bad("%s and %s are both published as %s", o, b.Name(), ext)
			}
			host[ext] = b.Name()
		}
		if len(s.ports) != mapped || len(s.expose) != mapped {
			bad("%s: ports %v, exposed %v", c.name, s.ports, s.expose)
		}
	}
	for _, c := range cs {
		s := got[ir.CleanName(c.name)]
		if s == nil {
			continue
		}
		known := map[string]bool{}
		for _, e := range c.edges {
			key := linux.EnvVar(e.Name())
			known[key] = true
			v, has := s.env[key]
			switch n := e.(type) {
			case *address.BindConfig:
			case *address.DialConfig:
				want := at[n.AddressName]
				if want == "" {
					want = env[key]
				}
				if v != want {
					bad("%s is told that %s is %q and not %q", c.name, n.Name(), v, want)
				}
			case *conf:
				if n.HasValue() {
					if has && v != n.value {
						bad("%s: %s is %q and not %q", c.name, n.name, v, n.value)
					}
				} else if v != env[key] {
					bad("%s: %s is %q and not %q", c.name, n.name, v, env[key])
				}
			}
		}
		for k := range s.env {
			if !known[k] {
				bad("%s has the variable %s", c.name, k)
			}
		}
	}
	return
}

const perInstance = 4 * 4 * 8 * 4

var confs = []string{"none", "required", "optional", "valued"}

// instance k of 2, by its number; pre are the ports that its servers have already.
func instance(k, v int, pre map[*address.BindConfig]uint16) (c *ctr, conflict bool, desc string) {
	d := rep.Digits(v, 4, 4, 8, 4)
	me, other := fmt.Sprintf("c%d.ctr", k), 1-k
	c = &ctr{name: me, build: k == 0}
	var ports []uint16
	for slot := 0; slot < 2; slot++ {
		addr := fmt.Sprintf("s%d%d.grpc", k, slot)
		switch d[slot] {
		case 1:
			c.edges = append(c.edges, bind(addr, 0, 0))
		case 2:
			c.edges = append(c.edges, bind(addr, 0, 2001))
		case 3:
			b := bind(addr, 2001, 0)
			pre[b] = 2001
			ports = append(ports, 2001)
			c.edges = append(c.edges, b)
		}
	}
	for b := 0; b < 3; b++ {
		if d[2]>>b&1 == 0 {
			continue
		}
		addr := "far.grpc"
		if b < 2 {
			addr = fmt.Sprintf("s%d%d.grpc", other, b)
		}
		c.edges = append(c.edges, dial(addr))
	}
	switch d[3] {
	case 1:
		c.edges = append(c.edges, &conf{name: me + ".conf"})
	case 2:
		c.edges = append(c.edges, &conf{name: me + ".conf", optional: true})
	case 3:
		c.edges = append(c.edges, &conf{name: me + ".conf", value: "v"})
	}
	return c, len(ports) > 1, fmt.Sprintf("%s: servers %v, dials %b, configuration %s; ", me, d[:2], d[2], confs[d[3]])
}
