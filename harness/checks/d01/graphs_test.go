package d01

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubepod"
	"github.com/blueprint-uservices/blueprint/plugins/linux"
	"verif.local/h/rep"
	"verif.local/h/yaml"
)

// declared tells whether a volume that is no path is declared in a file.
func declared(file []byte, volume string) bool {
	if strings.HasPrefix(volume, "/") || strings.HasPrefix(volume, ".") || strings.HasPrefix(volume, "~") {
		return true
	}
	var doc struct {
		Volumes map[string]any `yaml:"volumes"`
	}
	if yaml.Unmarshal(file, &doc) != nil {
		return false
	}
	_, ok := doc.Volumes[volume]
	return ok
}

// two makes two containers.
func two(v0, v1 int) (cs []*ctr, pre map[*address.BindConfig]uint16, conflict bool, desc string) {
	pre = map[*address.BindConfig]uint16{}
	a, c0, d0 := instance(0, v0, pre)
	b, c1, d1 := instance(1, v1, pre)
	return []*ctr{a, b}, pre, c0 || c1, d0 + d1
}

// graphs deploys every pair of containers, in one deployment or in two of the same application.
func graphs(r *rep.R) {
	second := rep.Pick(r, perInstance/4, perInstance) // all kinds of configuration in the thorough tier
	r.Enum("pairs of containers", perInstance*second*2, 2, func(i int) (c rep.Case) {
		d := rep.Digits(i, perInstance, second, 2)
		dir := scratch()
		defer os.RemoveAll(dir)
		cs, pre, conflict, desc := two(d[0], d[1])
		c.Sig = []string{"graph", "apart"}[d[2]]
		c.Input = c.Sig + " " + desc
		groups := [][]*ctr{cs}
		if d[2] == 1 {
			groups = [][]*ctr{cs[:1], cs[1:]}
		}
		c.Outcome = "deployed"
		for k, g := range groups {
			sub := filepath.Join(dir, fmt.Sprint(k))
			os.Mkdir(sub, 0755)
			if err := deploy(sub, g...); err != nil {
				c.Outcome = "refused"
				if !conflict {
					c.Msgs = append(c.Msgs, err.Error())
				}
				return
			}
			c.Msgs = append(c.Msgs, judge(sub, g, pre)...)
			for _, ct := range g {
				c.Steps += len(ct.edges)
				for _, e := range ct.edges {
					if b, ok := e.(*address.BindConfig); ok && b.HasValue() {
						c.Msgs = append(c.Msgs, b.Name()+" keeps its address in the container outside of the deployment")
					}
				}
			}
		}
		if conflict {
			c.Msgs = append(c.Msgs, "two servers of a container on one port are not refused")
		}
		return
	})
}

// absent leaves out every variable of the calling environment.
func absent(r *rep.R) {
	few := []int{0, 1, 1 + 4, 2 + 4*1, 1 + 16*1, 1 + 16*4, 1 + 128*1, 1 + 128*2}
	r.Enum("variables that the caller does not set", perInstance*len(few), 2, func(i int) (c rep.Case) {
		d := rep.Digits(i, perInstance, len(few))
		dir := scratch()
		defer os.RemoveAll(dir)
		cs, _, conflict, desc := two(d[0], few[d[1]])
		c.Sig, c.Input, c.Outcome = "absent", desc, "deployed"
		if err := deploy(dir, cs...); err != nil {
			c.Outcome = "refused"
			if !conflict {
				c.Msgs = append(c.Msgs, err.Error())
			}
			return
		}
		bound := map[string]bool{}
		for _, ct := range cs {
			for _, e := range ct.edges {
				if b, ok := e.(*address.BindConfig); ok {
					bound[b.AddressName] = true
				}
			}
		}
		needed := map[string]bool{}
		for _, ct := range cs {
			for _, e := range ct.edges {
				k := linux.EnvVar(e.Name())
				switch n := e.(type) {
				case *address.BindConfig:
					needed[k] = true
				case *address.DialConfig:
					needed[k] = !bound[n.AddressName]
				case *conf:
					needed[k] = !n.optional && !n.HasValue()
				}
			}
		}
		for k, need := range needed {
			env := world(cs)
			delete(env, k)
			c.Steps++
			_, err := compose(filepath.Join(dir, "docker-compose.yml"), env)
			var m missing
			if need && !(errors.As(err, &m) && m.name == k) || !need && err != nil {
				c.Msgs = append(c.Msgs, fmt.Sprintf("without %s, needed %v: %v", k, need, err))
			}
		}
		return
	})
}

// kubeGraphs deploys every pair of containers to pods.
func kubeGraphs(r *rep.R) {
	first := rep.Pick(r, perInstance/2, perInstance)
	r.Enum("pairs of containers in pods", first*perInstance/4*4, 2, func(i int) (c rep.Case) {
		d := rep.Digits(i, first, perInstance/4, 2, 2)
		dir := scratch()
		defer os.RemoveAll(dir)
		cs, pre, conflict, desc := two(d[0], d[1])
		c.Sig = []string{"pod", "pods"}[d[2]]
		c.Input = fmt.Sprintf("%s: far: %v, %s", c.Sig, d[3] == 1, desc)
		app := &kubernetes.Application{AppName: "app"}
		pod := func(name string, cs ...*ctr) {
			p := &kubepod.PodDeployment{PodName: name, DockerRegistryAddr: "registry:5000"}
			for _, ct := range cs {
				p.Nodes = append(p.Nodes, ct)
			}
			app.Nodes = append(app.Nodes, p)
		}
		if d[2] == 0 {
			pod("both_pods", cs...)
			used := 0
			for range pre {
				used++
			}
			conflict = used > 1 // containers of a pod share their ports
		} else {
			pod("pod_0", cs[0])
			pod("pod_1", cs[1])
		}
		if d[3] == 1 {
			pod("far_pod", &ctr{name: "far.ctr", edges: []ir.IRNode{bind("far.grpc", 0, 0)}})
		}
		refusable, must := false, conflict
		bound := map[string]bool{"far.grpc.addr": d[3] == 1}
		for _, ct := range cs {
			for _, e := range ct.edges {
				if b, ok := e.(*address.BindConfig); ok {
					bound[b.AddressName] = true
				}
			}
		}
		for _, ct := range cs {
			for _, e := range ct.edges {
				switch n := e.(type) {
				case *address.DialConfig:
					must = must || !bound[n.AddressName]
				case *conf:
					must = must || !n.HasValue() && !n.optional
					refusable = refusable || !n.HasValue()
				}
			}
		}
		err := app.GenerateArtifacts(dir)
		if err != nil {
			c.Outcome = "refused"
			if !must && !refusable {
				c.Msgs = append(c.Msgs, err.Error())
			}
			return
		}
		c.Outcome = "generated"
		if must {
			c.Msgs = append(c.Msgs, "it is not refused")
		}
		c.Msgs = append(c.Msgs, readApp(dir, app, pre)...)
		return
	})
}

// readApp compares the manifests of an application with what its containers need.
func readApp(dir string, app *kubernetes.Application, pre map[*address.BindConfig]uint16) (msgs []string) {
	bad := func(f string, a ...any) { msgs = append(msgs, fmt.Sprintf(f, a...)) }
	var config struct {
		kmeta `yaml:",inline"`
		Data  map[string]string `yaml:"data"`
	}
	if err := load(filepath.Join(dir, "app_config.yaml"), &config); err != nil {
		return []string{err.Error()}
	}
	if config.Kind != "ConfigMap" || config.Metadata.Name != "app-config" {
		bad("the configuration is %s %s", config.Kind, config.Metadata.Name)
	}
	at := map[string]map[string]string{} // per pod: where to reach addresses
	pods := map[string]*pod{}
	taken := map[string]string{}
	var nodes []*kubepod.PodDeployment
	for _, n := range app.Nodes {
		nodes = append(nodes, n.(*kubepod.PodDeployment))
	}
	for _, n := range nodes {
		file := kubepod.KubernetesName(n.PodName)
		p, err := kubePod(filepath.Join(dir, file+"-deployment.yaml"), filepath.Join(dir, file+"-service.yaml"))
		if err != nil {
			return append(msgs, err.Error())
		}
		pods[n.PodName] = p
		if o := taken[p.service]; o != "" {
			bad("pods %s and %s have one service", o, n.PodName)
		}
		taken[p.service] = n.PodName
		ports := map[int]string{}
		total := 0
		if len(p.containers) != len(n.Nodes) {
			bad("%s has the containers %v", n.PodName, p.containers)
		}
		for _, e := range n.Nodes {
			ct := e.(*ctr)
			k := p.containers[strings.ReplaceAll(ir.CleanName(ct.name), "_", "-")]
			if k == nil {
				bad("%s is not there", ct.name)
				continue
			}
			if k.image == "" || !ct.build && k.image != "image/of-"+ir.CleanName(ct.name)+":1.0" {
				bad("%s has the image %q", ct.name, k.image)
			}
			binds := 0
			for _, e := range ct.edges {
				b, ok := e.(*address.BindConfig)
				if !ok {
					continue
				}
				binds++
				total++
				var port int
				if pp, ok := pre[b]; ok {
					port = int(pp)
					if v, told := k.env[linux.EnvVar(b.Name())]; told {
						bad("%s is told to bind %s", ct.name, v)
					}
				} else if _, err := fmt.Sscanf(k.env[linux.EnvVar(b.Name())], "0.0.0.0:%d", &port); err != nil || port <= 0 || port > 65535 {
					bad("%s is told to bind %q", ct.name, k.env[linux.EnvVar(b.Name())])
				}
				if o := ports[port]; o != "" {
					bad("%s and %s both listen on %d", o, b.Name(), port)
				}
				ports[port] = b.Name()
				if at[b.AddressName] == nil {
					at[b.AddressName] = map[string]string{}
				}
				at[b.AddressName][""] = fmt.Sprintf("%s:%d", p.service, port)
				at[b.AddressName][n.PodName] = fmt.Sprintf("localhost:%d", port)
				found := 0
				for _, x := range k.ports {
					if x == port {
						found++
					}
				}
				if found != 1 {
					bad("%s has the ports %v and not %d", ct.name, k.ports, port)
				}
				found = 0
				for _, x := range p.ports {
					if x == port {
						found++
					}
				}
				if found != 1 {
					bad("the service of %s has the ports %v and not %d", n.PodName, p.ports, port)
				}
			}
			if len(k.ports) != binds {
				bad("%s has the ports %v", ct.name, k.ports)
			}
		}
		if len(p.ports) != total {
			bad("the service of %s has the ports %v", n.PodName, p.ports)
		}
	}
	for _, n := range nodes {
		for _, e := range n.Nodes {
			ct := e.(*ctr)
			k := pods[n.PodName].containers[strings.ReplaceAll(ir.CleanName(ct.name), "_", "-")]
			if k == nil {
				continue
			}
			known := map[string]bool{}
			for _, e := range ct.edges {
				key := linux.EnvVar(e.Name())
				known[key] = true
				dl, ok := e.(*address.DialConfig)
				if !ok {
					continue
				}
				v := k.env[key]
				if ref := k.refs[key]; ref != "" {
					v = config.Data[ref]
				}
				where := at[dl.AddressName]
				if where == nil {
					bad("%s dials %s, which is nowhere", ct.name, dl.AddressName)
				} else if v == "" || v != where[n.PodName] && v != where[""] {
					bad("%s is told that %s is %q and not one of %v", ct.name, dl.Name(), v, where)
				}
			}
			for key := range k.env {
				if !known[key] {
					bad("%s has the variable %s", ct.name, key)
				}
			}
			for key := range k.refs {
				if !known[key] {
					bad("%s has the variable %s", ct.name, key)
				}
			}
		}
	}
	return
}
