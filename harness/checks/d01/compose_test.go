package d01

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"verif.local/h/yaml"
)

// service is a container of a docker-compose file, after the substitution of variables.
type service struct {
	name, image, context, dockerfile, hostname string
	expose                                     []string
	ports                                      [][3]string // host, host port, container port
	env                                        map[string]string
	volumes, command                           []string
	other                                      map[string]string
}

// compose reads a docker-compose file as docker compose does, with the variables of an environment.
func compose(file string, env map[string]string) (map[string]*service, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var doc yaml.Node
	if err := yaml.Unmarshal(b, &doc); err != nil {
		return nil, fmt.Errorf("not well-formed: %v", err)
	}
	var bad error
	fail := func(f string, a ...any) {
		if bad == nil {
			bad = fmt.Errorf(f, a...)
		}
	}
	fields := func(n *yaml.Node, f func(k string, v *yaml.Node)) {
		if n.Kind != yaml.MappingNode {
			fail("line %d: no mapping", n.Line)
			return
		}
		seen := map[string]bool{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k := n.Content[i].Value
			if seen[k] {
				fail("line %d: %s is there twice", n.Content[i].Line, k)
			}
			seen[k] = true
			f(k, n.Content[i+1])
		}
	}
	text := func(n *yaml.Node) string {
		if n.Kind != yaml.ScalarNode || n.Tag == "!!null" {
			fail("line %d: no text", n.Line)
			return ""
		}
		s, err := interpolate(n.Value, env)
		if err != nil {
			fail("line %d: %w", n.Line, err)
		}
		return s
	}
	list := func(n *yaml.Node, f func(string)) {
		if n.Kind != yaml.SequenceNode {
			fail("line %d: no list", n.Line)
		}
		for _, e := range n.Content {
			f(text(e))
		}
	}
	res := map[string]*service{}
	if len(doc.Content) != 1 {
		return nil, fmt.Errorf("empty")
	}
	fields(doc.Content[0], func(k string, v *yaml.Node) {
		if k != "services" {
			return
		}
		fields(v, func(name string, v *yaml.Node) {
			s := &service{name: name, env: map[string]string{}, other: map[string]string{}}
			res[name] = s
			fields(v, func(k string, v *yaml.Node) {
				switch k {
				case "image":
					s.image = text(v)
				case "build":
					fields(v, func(k string, v *yaml.Node) {
						switch k {
						case "context":
							s.context = text(v)
						case "dockerfile":
							s.dockerfile = text(v)
						}
					})
				case "hostname":
					s.hostname = text(v)
				case "expose":
					list(v, func(e string) { s.expose = append(s.expose, e) })
				case "ports":
					list(v, func(e string) {
						p := strings.Split(e, ":")
						switch len(p) {
						case 2:
							p = append([]string{""}, p...)
						case 3:
						default:
							fail("ports: %q", e)
							return
						}
						s.ports = append(s.ports, [3]string(p))
					})
				case "environment":
					if v.Kind == yaml.MappingNode {
						fields(v, func(k string, v *yaml.Node) { s.env[k] = text(v) })
						break
					}
					list(v, func(e string) {
						k, v, ok := strings.Cut(e, "=")
						if _, dup := s.env[k]; dup {
							fail("%s: variable %s is set twice", name, k)
						}
						if !ok {
							v, ok = env[k]
						}
						if ok {
							s.env[k] = v
						}
					})
				case "volumes":
					list(v, func(e string) { s.volumes = append(s.volumes, e) })
				case "command":
					list(v, func(e string) { s.command = append(s.command, e) })
				default:
					s.other[k] = text(v)
				}
			})
		})
	})
	return res, bad
}

type missing struct{ name string }

func (m missing) Error() string { return "variable " + m.name + " is not set" }

// interpolate substitutes variables as docker compose does.
func interpolate(s string, env map[string]string) (string, error) {
	var b strings.Builder
	name := func(s string) int {
		i := 0
		for i < len(s) && (s[i] == '_' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || i > 0 && s[i] >= '0' && s[i] <= '9') {
			i++
		}
		return i
	}
	for i := 0; i < len(s); i++ {
		if s[i] != '$' {
			b.WriteByte(s[i])
			continue
		}
		rest := s[i+1:]
		if strings.HasPrefix(rest, "$") {
			b.WriteByte('$')
			i++
			continue
		}
		if strings.HasPrefix(rest, "{") {
			end := strings.Index(rest, "}")
			if end < 0 {
				return "", fmt.Errorf("invalid interpolation format: %q", s)
			}
			in := rest[1:end]
			n := name(in)
			if n == 0 {
				return "", fmt.Errorf("invalid interpolation format: %q", s)
			}
			v, set := env[in[:n]]
			op := in[n:]
			switch {
			case op == "":
			case strings.HasPrefix(op, ":-"):
				if v == "" {
					v = op[2:]
				}
			case strings.HasPrefix(op, "-"):
				if !set {
					v = op[1:]
				}
			case strings.HasPrefix(op, ":?"):
				if v == "" {
					return "", missing{in[:n]}
				}
			case strings.HasPrefix(op, "?"):
				if !set {
					return "", missing{in[:n]}
				}
			case strings.HasPrefix(op, ":+"), strings.HasPrefix(op, "+"):
				return "", fmt.Errorf("unexpected %q", s)
			default:
				return "", fmt.Errorf("invalid interpolation format: %q", s)
			}
			b.WriteString(v)
			i += 1 + end
			continue
		}
		n := name(rest)
		if n == 0 {
			return "", fmt.Errorf("invalid interpolation format: %q", s)
		}
		b.WriteString(env[rest[:n]])
		i += n
	}
	return b.String(), nil
}

// pod is what the deployment and the service of a kubernetes pod say.
type pod struct {
	name, service string
	containers    map[string]*kctr
	ports         map[string]int // of the service
	names         map[string]bool
}

type kctr struct {
	image string
	env   map[string]string
	refs  map[string]string // variables that come from the config map
	args  []string
	ports []int
}

type kmeta struct {
	APIVersion string `yaml:"apiVersion"`
	Kind       string `yaml:"kind"`
	Metadata   struct {
		Name   string            `yaml:"name"`
		Labels map[string]string `yaml:"labels"`
	} `yaml:"metadata"`
}

func load(file string, to any) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	if err := yaml.Unmarshal(b, to); err != nil {
		return fmt.Errorf("%s is not well-formed: %v", file, err)
	}
	return nil
}

func label(s string) bool {
	if s == "" || len(s) > 63 {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z', c >= '0' && c <= '9', c == '-' && i > 0 && i < len(s)-1:
		default:
			return false
		}
	}
	return true
}

// expand substitutes variables as kubernetes does.
func expand(s string, env map[string]string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '$' || i+1 == len(s) {
			b.WriteByte(s[i])
			continue
		}
		switch s[i+1] {
		case '$':
			b.WriteByte('$')
			i++
		case '(':
			end := strings.Index(s[i:], ")")
			if end < 0 {
				b.WriteString("$(")
				i++
				break
			}
			if v, ok := env[s[i+2:i+end]]; ok {
				b.WriteString(v)
			} else {
				b.WriteString(s[i : i+end+1])
			}
			i += end
		default:
			b.WriteByte('$')
		}
	}
	return b.String()
}

// kubePod reads the two files of a pod.
func kubePod(deployment, svc string) (*pod, error) {
	var d struct {
		kmeta `yaml:",inline"`
		Spec  struct {
			Selector struct {
				MatchLabels map[string]string `yaml:"matchLabels"`
			} `yaml:"selector"`
			Template struct {
				Metadata struct {
					Labels map[string]string `yaml:"labels"`
				} `yaml:"metadata"`
				Spec struct {
					Hostname   string `yaml:"hostname"`
					Containers []struct {
						Name  string   `yaml:"name"`
						Image string   `yaml:"image"`
						Args  []string `yaml:"args"`
						Env   []struct {
							Name      string  `yaml:"name"`
							Value     *string `yaml:"value"`
							ValueFrom struct {
								Ref struct {
									Name string `yaml:"name"`
									Key  string `yaml:"key"`
								} `yaml:"configMapKeyRef"`
							} `yaml:"valueFrom"`
						} `yaml:"env"`
						Ports []struct {
							ContainerPort int `yaml:"containerPort"`
						} `yaml:"ports"`
					} `yaml:"containers"`
				} `yaml:"spec"`
			} `yaml:"template"`
		} `yaml:"spec"`
	}
	var s struct {
		kmeta `yaml:",inline"`
		Spec  struct {
			Selector map[string]string `yaml:"selector"`
			Ports    []struct {
				Name       string `yaml:"name"`
				Port       int    `yaml:"port"`
				TargetPort int    `yaml:"targetPort"`
			} `yaml:"ports"`
		} `yaml:"spec"`
	}
	if err := load(deployment, &d); err != nil {
		return nil, err
	}
	if err := load(svc, &s); err != nil {
		return nil, err
	}
	if d.Kind != "Deployment" || s.Kind != "Service" {
		return nil, fmt.Errorf("kinds %s and %s", d.Kind, s.Kind)
	}
	p := &pod{name: d.Metadata.Name, service: s.Metadata.Name, containers: map[string]*kctr{}, ports: map[string]int{}, names: map[string]bool{}}
	for _, n := range []string{p.name, p.service, d.Spec.Template.Spec.Hostname} {
		if !label(n) {
			return nil, fmt.Errorf("%q is no valid name", n)
		}
	}
	for k, v := range s.Spec.Selector {
		if d.Spec.Template.Metadata.Labels[k] != v {
			return nil, fmt.Errorf("the service selects %s=%s", k, v)
		}
	}
	for k, v := range d.Spec.Selector.MatchLabels {
		if d.Spec.Template.Metadata.Labels[k] != v {
			return nil, fmt.Errorf("the deployment selects %s=%s", k, v)
		}
	}
	if len(s.Spec.Selector) == 0 || len(d.Spec.Selector.MatchLabels) == 0 {
		return nil, fmt.Errorf("no selector")
	}
	for _, c := range d.Spec.Template.Spec.Containers {
		if !label(c.Name) {
			return nil, fmt.Errorf("%q is no valid name", c.Name)
		}
		if p.containers[c.Name] != nil {
			return nil, fmt.Errorf("container %s is there twice", c.Name)
		}
		k := &kctr{image: c.Image, env: map[string]string{}, refs: map[string]string{}}
		p.containers[c.Name] = k
		for _, e := range c.Env {
			_, d1 := k.env[e.Name]
			_, d2 := k.refs[e.Name]
			if d1 || d2 {
				return nil, fmt.Errorf("variable %s is set twice", e.Name)
			}
			if r := e.ValueFrom.Ref; r.Name != "" {
				if r.Name != "app-config" {
					return nil, fmt.Errorf("config map %s", r.Name)
				}
				k.refs[e.Name] = r.Key
			} else if e.Value != nil {
				k.env[e.Name] = expand(*e.Value, k.env)
			} else {
				return nil, fmt.Errorf("variable %s has no value", e.Name)
			}
		}
		for _, a := range c.Args {
			k.args = append(k.args, expand(a, k.env))
		}
		for _, e := range c.Ports {
			k.ports = append(k.ports, e.ContainerPort)
		}
		sort.Ints(k.ports)
	}
	for _, e := range s.Spec.Ports {
		if !label(e.Name) {
			return nil, fmt.Errorf("%q is no valid name of a port", e.Name)
		}
		if _, dup := p.ports[e.Name]; dup {
			return nil, fmt.Errorf("port %s is there twice", e.Name)
		}
		if e.Port != e.TargetPort {
			return nil, fmt.Errorf("port %s leads from %d to %d", e.Name, e.Port, e.TargetPort)
		}
		p.ports[e.Name] = e.Port
	}
	return p, nil
}
