package d01

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/dockercompose"
	"github.com/blueprint-uservices/blueprint/plugins/environment"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/grpc"
	"github.com/blueprint-uservices/blueprint/plugins/http"
	"github.com/blueprint-uservices/blueprint/plugins/jaeger"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer"
	"github.com/blueprint-uservices/blueprint/plugins/memcached"
	"github.com/blueprint-uservices/blueprint/plugins/mongodb"
	"github.com/blueprint-uservices/blueprint/plugins/mysql"
	"github.com/blueprint-uservices/blueprint/plugins/opentelemetry"
	"github.com/blueprint-uservices/blueprint/plugins/rabbitmq"
	"github.com/blueprint-uservices/blueprint/plugins/redis"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"github.com/blueprint-uservices/blueprint/plugins/zipkin"
	"verif.local/h/rep"
	"verif.local/workflows/places/places"
)

var register sync.Once

var backends = []string{"none", "redis", "memcached", "mongodb", "mysql", "rabbitmq"}
var wellKnown = map[string]string{"redis": "6379", "memcached": "11211", "mongodb": "27017", "mysql": "3306", "rabbitmq": "5672", "jaeger": "14268", "zipkin": "9411"}
var tracers = []string{"none", "jaeger", "zipkin"}
var shapes = []string{"three containers", "callees share a process", "callees share a container", "all share a container"}
var targets = []string{"default", "one deployment", "two deployments", "default and deployment", "pod per container", "one pod"}

// apps generates whole applications of three services and their backends, with every placement.
func apps(r *rep.R) {
	radix := []int{len(shapes), len(targets), len(backends), 2, len(tracers), 2}
	n := 1
	for _, k := range radix {
		n *= k
	}
	r.EnumN("applications", n, 0, 1, func(i int) (c rep.Case) {
		d := rep.Digits(i, radix...)
		if !r.Thorough {
			// the transport and the tracer go through all combinations with backends and placements, but not with both at once
			if (d[0]+d[1]+d[2]+d[3]+2*d[4]+3*d[5])%6 != 0 {
				c.Outcome = "only in the thorough tier"
				return
			}
		}
		register.Do(func() {
			goproc.RegisterAsDefaultBuilder()
			linuxcontainer.RegisterAsDefaultBuilder()
			dockercompose.RegisterAsDefaultBuilder()
			environment.AssignPorts(12345)
		})
		c.Sig = fmt.Sprintf("app-%d-%d", d[0], d[1])
		kube := d[1] >= 4
		c.Input = fmt.Sprintf("%s, %s, backend %s, shared %v, tracer %s, grpc %v", shapes[d[0]], targets[d[1]], backends[d[2]], d[3] == 1, tracers[d[4]], d[5] == 1)
		dir := scratch()
		defer os.RemoveAll(dir)
		out := filepath.Join(dir, "out")

		spec := wiring.NewWiringSpec("app")
		want := map[string]string{} // the port of what has a well-known one
		var ctrs []string
		db := func(name string) string {
			switch backends[d[2]] {
			case "redis":
				name = redis.Container(spec, name)
			case "memcached":
				name = memcached.Container(spec, name)
			case "mongodb":
				name = mongodb.Container(spec, name)
			case "mysql":
				name = mysql.Container(spec, name)
			case "rabbitmq":
				name = rabbitmq.Container(spec, name, "q")
			}
			want[name] = wellKnown[backends[d[2]]]
			ctrs = append(ctrs, name+".ctr")
			return name
		}
		callee := func(name, db string) string {
			switch backends[d[2]] {
			case "redis", "memcached":
				return workflow.Service[*places.CachedImpl](spec, name, db)
			case "mongodb":
				return workflow.Service[*places.DocImpl](spec, name, db)
			case "mysql":
				return workflow.Service[*places.RelImpl](spec, name, db)
			case "rabbitmq":
				return workflow.Service[*places.QueuedImpl](spec, name, db)
			}
			return workflow.Service[*places.LeafImpl](spec, name)
		}
		var da, dbb string
		if d[2] != 0 {
			da = db("data")
			dbb = da
			if d[3] == 0 {
				dbb = db("more_data")
			}
		} else if d[3] == 1 {
			c.Outcome = "not meaningful"
			return
		}
		a, b := callee("a_service", da), callee("b_service", dbb)
		f := workflow.Service[*places.ForkImpl](spec, "f_service", a, b)
		if d[4] > 0 {
			var col string
			if d[4] == 1 {
				col = jaeger.Collector(spec, "trace")
			} else {
				col = zipkin.Collector(spec, "trace")
			}
			want[col] = wellKnown[tracers[d[4]]]
			ctrs = append(ctrs, col+".ctr")
			for _, s := range []string{a, b, f} {
				opentelemetry.Instrument(spec, s, col)
			}
		}
		for _, s := range []string{a, b, f} {
			if d[5] == 1 {
				grpc.Deploy(spec, s)
			} else {
				http.Deploy(spec, s)
			}
		}
		var own []string
		pf := goproc.CreateProcess(spec, "f_proc", f)
		switch d[0] {
		case 0:
			own = []string{linuxcontainer.CreateContainer(spec, "f_ctr", pf),
				linuxcontainer.CreateContainer(spec, "a_ctr", goproc.CreateProcess(spec, "a_proc", a)),
				linuxcontainer.CreateContainer(spec, "b_ctr", goproc.CreateProcess(spec, "b_proc", b))}
		case 1:
			own = []string{linuxcontainer.CreateContainer(spec, "f_ctr", pf),
				linuxcontainer.CreateContainer(spec, "ab_ctr", goproc.CreateProcess(spec, "ab_proc", a, b))}
		case 2:
			own = []string{linuxcontainer.CreateContainer(spec, "f_ctr", pf),
				linuxcontainer.CreateContainer(spec, "ab_ctr", goproc.CreateProcess(spec, "a_proc", a), goproc.CreateProcess(spec, "b_proc", b))}
		case 3:
			own = []string{linuxcontainer.CreateContainer(spec, "all_ctr", goproc.CreateProcess(spec, "a_proc", a), goproc.CreateProcess(spec, "b_proc", b), pf)}
		}
		all := append(append([]string{}, ctrs...), own...)
		var roots []string
		switch d[1] {
		case 0:
			roots = own
		case 1:
			roots = []string{dockercompose.NewDeployment(spec, "dep", all...)}
		case 2:
			roots = []string{dockercompose.NewDeployment(spec, "dep1", ctrs...), dockercompose.NewDeployment(spec, "dep2", own...)}
			if len(ctrs) == 0 {
				roots = []string{dockercompose.NewDeployment(spec, "dep1", own[:1]...), dockercompose.NewDeployment(spec, "dep2", own[1:]...)}
				if len(own) == 1 {
					roots = roots[:1]
				}
			}
		case 3:
			roots = append([]string{dockercompose.NewDeployment(spec, "dep1", own[0])}, own[1:]...)
		case 4:
			roots = []string{kubernetes.NewApplication(spec, "app", "registry", all...)}
		case 5:
			kubernetes.AddPodToApplication(spec, "app_kubernetes", "all_pod", "registry", all...)
			roots = []string{kubernetes.NewApplication(spec, "app", "registry")}
		}
		samePort := d[1] == 5 && d[2] != 0 && d[3] == 0 // two backends with one port in one pod
		app, err := spec.BuildIR(roots...)
		if err == nil {
			err = app.GenerateArtifacts(out)
		}
		if err != nil {
			c.Outcome = "refused"
			if d[1] == 2 && len(ctrs) == 0 && strings.Contains(err.Error(), "cannot be simultaneously reached") {
				c.Sig = "app-split-refused" // a known finding
			}
			if !samePort {
				c.Msgs = append(c.Msgs, fmt.Sprintf("%.2000v", err))
			}
			return
		}
		if samePort {
			c.Msgs = append(c.Msgs, "two servers of a pod on one port are not refused")
			return
		}
		c.Outcome = "generated"
		c.Msgs, c.Steps = inspect(dir, out, kube, want, len(all))
		sort.Strings(c.Msgs)
		return
	})
}

// place is a container of an application: its address, and what its processes are started with.
type place struct {
	group, host string
	env         map[string]string
	context     string
	listens     map[string]bool // ports
}

var flagRE = regexp.MustCompile(`b\.(Required|Optional)\("([^"]+)"`)

func inspect(dir, out string, kube bool, want map[string]string, total int) (msgs []string, steps int) {
	bad := func(f string, a ...any) { msgs = append(msgs, fmt.Sprintf(f, a...)) }
	env := map[string]string{}
	vars, err := os.ReadFile(filepath.Join(out, ".local.env"))
	if err != nil {
		bad("%v", err)
	}
	for _, l := range strings.Split(string(vars), "\n") {
		if k, v, ok := strings.Cut(l, "="); ok {
			env[k] = v
		}
	}
	places := map[string]*place{} // by group and host
	published := map[string]string{}
	count := 0
	filepath.Walk(out, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(out, filepath.Dir(path))
		switch {
		case info.Name() == "docker-compose.yml":
			ss, err := compose(path, env)
			if err != nil {
				bad("%s: %v", rel, err)
				return nil
			}
			for n, s := range ss {
				count++
				p := &place{group: rel, host: s.hostname, env: s.env, listens: map[string]bool{}}
				if s.context != "" {
					p.context = filepath.Join(filepath.Dir(path), s.context)
					if s.dockerfile == "" {
						bad("%s has no Dockerfile", n)
					} else if _, err := os.Stat(filepath.Join(p.context, s.dockerfile)); err != nil {
						bad("%s: %v", n, err)
					}
				} else if s.image == "" {
					bad("%s has no image", n)
				}
				exposed := map[string]bool{}
				for _, e := range s.expose {
					exposed[e] = true
				}
				for _, q := range s.ports {
					at := q[0] + ":" + q[1]
					if o := published[at]; o != "" {
						bad("%s and %s are published at %s", o, n, at)
					}
					published[at] = n
					p.listens[q[2]] = true
					if !exposed[q[2]] {
						bad("%s does not expose %s", n, q[2])
					}
				}
				if s.hostname != n {
					bad("%s has the host name %s", n, s.hostname)
				}
				places[rel+" "+s.hostname] = p
			}
		case strings.HasSuffix(info.Name(), "-deployment.yaml"):
			p, err := kubePod(path, strings.TrimSuffix(path, "-deployment.yaml")+"-service.yaml")
			if err != nil {
				bad("%v", err)
				return nil
			}
			var config struct {
				kmeta `yaml:",inline"`
				Data  map[string]string `yaml:"data"`
			}
			if err := load(filepath.Join(filepath.Dir(path), "app_config.yaml"), &config); err != nil {
				bad("%v", err)
			}
			all := map[string]bool{}
			for n, k := range p.containers {
				count++
				if k.image == "" {
					bad("%s has no image", n)
				}
				q := &place{group: p.service, host: p.service, env: k.env, listens: map[string]bool{}}
				for v, ref := range k.refs {
					if config.Data[ref] == "" {
						bad("%s: %s is not in the configuration", n, ref)
					}
					k.env[v] = config.Data[ref]
				}
				for _, port := range k.ports {
					s := strconv.Itoa(port)
					if all[s] {
						bad("port %s of pod %s is used twice", s, p.name)
					}
					all[s], q.listens[s] = true, true
				}
				c := filepath.Join(filepath.Dir(path), strings.ReplaceAll(n, "-", "_"))
				if _, err := os.Stat(filepath.Join(c, "Dockerfile")); err == nil {
					q.context = c
				}
				places[p.service+" "+n] = q
			}
			served := map[string]bool{}
			for _, port := range p.ports {
				served[strconv.Itoa(port)] = true
			}
			if fmt.Sprint(served) != fmt.Sprint(all) {
				bad("the service of pod %s has the ports %v and the containers %v", p.name, served, all)
			}
		}
		return nil
	})
	if count != total {
		bad("there are %d containers and not %d", count, total)
	}
	// start the processes
	type server struct{ group, host, port string }
	servers := map[string]server{}
	type dialled struct {
		p          *place
		name, addr string
	}
	var dials []dialled
	for n, p := range places {
		for port := range p.listens {
			host := strings.Fields(n)[1]
			for name, wk := range want {
				cn := strings.NewReplacer(".", "_").Replace(name + ".ctr")
				if strings.ReplaceAll(host, "-", "_") == cn && wk == port {
					servers[name] = server{p.group, p.host, port}
				}
			}
		}
		if p.context == "" {
			continue
		}
		args, flags, err := start(dir, p)
		if err != nil {
			bad("%s: %v", n, err)
			continue
		}
		steps += len(flags)
		for f := range flags {
			v, ok := args[f]
			if !ok || v == "" {
				bad("%s does not get %s", n, f)
				continue
			}
			if s, isBind := strings.CutSuffix(f, ".bind_addr"); isBind {
				_, port, err := net.SplitHostPort(v)
				if err != nil || !p.listens[port] {
					bad("%s is told to bind %s to %q, published are %v", n, s, v, p.listens)
				}
				servers[s] = server{p.group, p.host, port}
			}
			if s, isDial := strings.CutSuffix(f, ".dial_addr"); isDial {
				dials = append(dials, dialled{p, s, v})
			}
		}
	}
	for _, dl := range dials {
		s, ok := servers[dl.name]
		if !ok {
			bad("nothing serves %s", dl.name)
			continue
		}
		switch {
		case s.group == dl.p.group && dl.addr == s.host+":"+s.port:
		case kube && s.group == dl.p.group && dl.addr == "localhost:"+s.port:
		case kube && s.group != dl.p.group && dl.addr == s.host+":"+s.port:
		case !kube && s.group != dl.p.group && dl.addr == env[strings.ToUpper(strings.NewReplacer(".", "_").Replace(dl.name))+"_DIAL_ADDR"]:
			// the server is published where its callers outside of the deployment expect it
			_, port, _ := net.SplitHostPort(dl.addr)
			if published["0.0.0.0:"+port] != s.host {
				bad("%s is reached at %s, where %q is", dl.name, dl.addr, published["0.0.0.0:"+port])
			}
		default:
			bad("%s in %s dials %s at %s, which listens on %s:%s in %s", dl.p.host, dl.p.group, dl.name, dl.addr, s.host, s.port, s.group)
		}
	}
	return
}

// start runs the launch script of an image with the environment of a container, with processes that record their arguments.
func start(dir string, p *place) (args map[string]string, flags map[string]bool, err error) {
	root, err := os.MkdirTemp(dir, "run")
	if err != nil {
		return
	}
	script, err := os.ReadFile(filepath.Join(p.context, "run.sh"))
	if err != nil {
		return
	}
	os.WriteFile(filepath.Join(root, "run.sh"), script, 0755)
	entries, _ := os.ReadDir(p.context)
	flags, args = map[string]bool{}, map[string]string{}
	logfile := filepath.Join(root, "log")
	for _, e := range entries {
		if !e.IsDir() {
			continue
		}
		os.Mkdir(filepath.Join(root, e.Name()), 0755)
		os.WriteFile(filepath.Join(root, e.Name(), e.Name()), []byte("#!/bin/sh\nfor a in \"$@\"; do printf '%s\\0' \"$a\" >> \"$LOG\"; done\n"), 0755)
		filepath.Walk(filepath.Join(p.context, e.Name()), func(path string, info os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(path, ".go") {
				b, _ := os.ReadFile(path)
				for _, m := range flagRE.FindAllStringSubmatch(string(b), -1) {
					flags[m[2]] = true
				}
			}
			return nil
		})
	}
	cmd := exec.Command("dash", "./run.sh")
	cmd.Dir = root
	cmd.Env = []string{"PATH=/usr/local/bin:/usr/bin:/bin", "LOG=" + logfile}
	for k, v := range p.env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	b, err := cmd.CombinedOutput()
	if err != nil {
		return nil, nil, fmt.Errorf("%v\n%.1500s", err, b)
	}
	l, _ := os.ReadFile(logfile)
	for _, a := range strings.Split(string(l), "\x00") {
		if k, v, ok := strings.Cut(strings.TrimPrefix(a, "--"), "="); ok {
			if o, dup := args[k]; dup && o != v {
				return nil, nil, fmt.Errorf("%s is both %q and %q", k, o, v)
			}
			args[k] = v
		}
	}
	return
}
