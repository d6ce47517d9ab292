// Package d02 checks the launch scripts of containers: those that the real compiler generates for every dependency graph
// of a few processes are run by a shell, with processes that record what happens.
package d02

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/plugins/docker"
	gogen "github.com/blueprint-uservices/blueprint/plugins/goproc/linuxgen"
	"github.com/blueprint-uservices/blueprint/plugins/linux"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer"
	"verif.local/h/rep"
)

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	arguments(r)
	collisions(r)
	builds(r)
	images(r)
	launches(r)
}

// node is something that processes depend on: a configuration value or an address.
type node struct{ name string }

func (n *node) Name() string   { return n.name }
func (n *node) String() string { return n.name }

// proc is a process that records its start and end.
type proc struct {
	name   string
	run    string
	deps   []ir.IRNode
	dir    bool
	build  string // of the process's build script
	custom string
}

func (p *proc) Name() string            { return p.name }
func (p *proc) String() string          { return p.name }
func (p *proc) ImplementsLinuxProcess() {}

func (p *proc) AddProcessArtifacts(ws linux.ProcessWorkspace) error {
	if !p.dir {
		return nil
	}
	dir, err := ws.CreateProcessDir(p.name)
	if err != nil {
		return err
	}
	if p.build != "" {
		f := filepath.Join(dir, "make.sh")
		if err := os.WriteFile(f, []byte(p.build), 0644); err != nil {
			return err
		}
		if err := ws.AddBuildScript(f); err != nil {
			return err
		}
	}
	if d, ok := ws.(docker.ProcessWorkspace); ok && p.custom != "" {
		d.AddDockerfileCommands(ir.CleanName(p.name), p.custom)
	}
	return nil
}

func (p *proc) AddProcessInstance(ws linux.ProcessWorkspace) error {
	if p.run == "" {
		return nil
	}
	return ws.DeclareRunCommand(p.name, p.run, p.deps...)
}

// images receives the artifacts of a container that becomes a docker image.
type imageDir struct {
	ir.VisitTrackerImpl
	dir string
}

func (i *imageDir) Info() docker.ContainerWorkspaceInfo {
	return docker.ContainerWorkspaceInfo{Path: i.dir, Target: "verif"}
}
func (i *imageDir) CreateImageDir(string) (string, error)                       { return i.dir, nil }
func (i *imageDir) DeclarePrebuiltInstance(string, string, ...ir.IRNode) error  { return nil }
func (i *imageDir) DeclareLocalImage(string, string, ...ir.IRNode) error        { return nil }
func (i *imageDir) SetEnvironmentVariable(string, string, string) error         { return nil }
func (i *imageDir) SetCustomCommand(instance string, command []string) error    { return nil }
func (i *imageDir) AddVolume(instance string, src string, dst string) error     { return nil }
func (i *imageDir) AddCustomConf(instance string, src string, dst string) error { return nil }
func (i *imageDir) ImplementsContainerWorkspace()                               {}
func (i *imageDir) ImplementsBuildContext()                                     {}

// generate generates the artifacts of a container in a directory.
func generate(dir string, image bool, ps []*proc) error {
	c := &linuxcontainer.Container{InstanceName: "my.ctr", ImageName: "my_ctr"}
	for _, p := range ps {
		c.Nodes = append(c.Nodes, p)
	}
	if image {
		return c.AddContainerArtifacts(&imageDir{dir: dir})
	}
	return c.GenerateArtifacts(dir)
}

// scratch creates a directory; odd ones have a space in their name.
func scratch(odd bool) string {
	dir, err := os.MkdirTemp("", "d02")
	if err != nil {
		panic(err)
	}
	if odd {
		dir = filepath.Join(dir, "with space")
	}
	os.MkdirAll(filepath.Join(dir, "ws"), 0755)
	return dir
}

func remove(dir string) {
	if filepath.Base(dir) == "with space" {
		dir = filepath.Dir(dir)
	}
	os.RemoveAll(dir)
}

// shell runs a script in the workspace and returns its output, the log of the processes and the exit code.
func shell(dir, sh, script string, env map[string]string) (out string, log []string, code int) {
	cmd := exec.Command(sh, "-c", sh+" ./"+script+"; c=$?; echo \"exit $c\" >> \"$LOG\"; exit $c")
	cmd.Dir = filepath.Join(dir, "ws")
	logfile := filepath.Join(dir, "log")
	cmd.Env = []string{"PATH=/usr/local/bin:/usr/bin:/bin", "LOG=" + logfile}
	for k, v := range env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	b, err := cmd.CombinedOutput()
	code = cmd.ProcessState.ExitCode()
	_ = err
	l, _ := os.ReadFile(logfile)
	return string(b), strings.Split(strings.TrimSuffix(string(l), "\n"), "\n"), code
}

// dags are the acyclic dependency graphs of n processes: bit j of element i tells that i needs j.
func dags(n int) (gs [][]int) {
	for x := 0; x < 1<<(n*n); x++ {
		g := make([]int, n)
		ok := true
		for i := range g {
			g[i] = x >> (i * n) & (1<<n - 1)
			ok = ok && g[i]>>i&1 == 0
		}
		if ok && acyclic(g) {
			gs = append(gs, g)
		}
	}
	return
}

func acyclic(g []int) bool {
	done := 0
	for k := 0; k < len(g); k++ {
		for i := range g {
			if done>>i&1 == 0 && g[i]&^done == 0 {
				done |= 1 << i
			}
		}
	}
	return done == 1<<len(g)-1
}

var procNames = []string{"b.proc", "a_x", "c.y.z", "B2"}
var argNames = []string{"svc.grpc.bind_addr", "conf-1"}

// launches runs the scripts of all graphs of processes with all kinds of failures.
func launches(r *rep.R) {
	type family struct {
		n                    int
		behaviours, envs, as int // number of behaviours per process, states per variable, ways to use the variables
		name                 string
	}
	for _, f := range []family{
		{3, 3, 1, 1, "processes that fail"},
		{3, 1, 3, rep.Pick(r, 8, 64), "variables that are missing"},
		{2, 4, 3, rep.Pick(r, 4, 16), "two processes"},
		{rep.Pick(r, 1, 4), 2, 1, 1, "more processes"},
	} {
		f := f
		gs := dags(f.n)
		rx := []int{len(gs), rep.Power(f.behaviours, f.n), rep.Power(f.envs, 2), f.as, 2}
		n := 1
		for _, x := range rx {
			n *= x
		}
		r.Enum("launch: "+f.name, n, 0, func(i int) (c rep.Case) {
			d := rep.Digits(i, rx...)
			g := gs[d[0]]
			image := d[4] == 1
			dir := scratch(d[0]%2 == 1)
			defer remove(dir)
			behaviour := make([]int, f.n)
			for k, x := 0, d[1]; k < f.n; k++ {
				behaviour[k] = x % f.behaviours
				x /= f.behaviours
			}
			env := map[string]string{}
			var missing []string
			args := []ir.IRNode{&node{argNames[0]}, &node{argNames[1]}}
			used := map[int]bool{}
			needs := func(p, a int) bool {
				if f.as == 1 {
					return p%2 == a
				}
				return d[3]*(1<<(2*f.n)-1)/(f.as-1)>>(2*p+a)&1 == 1
			}
			for p := 0; p < f.n; p++ {
				for a := range args {
					if needs(p, a) {
						used[a] = true
					}
				}
			}
			for a, st := range rep.Digits(d[2], f.envs, f.envs) {
				switch st {
				case 0:
					env[linux.EnvVar(argNames[a])] = fmt.Sprint("value", a)
				case 1:
					if used[a] {
						missing = append(missing, linux.EnvVar(argNames[a]))
					}
				case 2:
					env[linux.EnvVar(argNames[a])] = ""
				}
			}
			var ps []*proc
			for k := 0; k < f.n; k++ {
				p := &proc{name: procNames[k]}
				line := "start " + p.name
				for j := 0; j < f.n; j++ {
					if g[k]>>j&1 == 1 {
						line += fmt.Sprintf(" dep%d=${%s:+up}", j, linux.EnvVar(procNames[j]))
					}
				}
				for a := range args {
					if needs(k, a) {
						p.deps = append(p.deps, args[a])
						line += fmt.Sprintf(" arg%d=${%s}", a, linux.EnvVar(argNames[a]))
					}
				}
				set := fmt.Sprintf("\t%s=$!\n\treturn 0\n", linux.EnvVar(p.name))
				switch behaviour[k] {
				case 1:
					set = "\treturn 3\n" // fails
				case 2:
					set = "\treturn $?\n" // forgets to set its variable
				case 3:
					set = fmt.Sprintf("\t%s=$!\n\treturn 1\n", linux.EnvVar(p.name)) // sets it, then fails
				}
				p.run = "function run_it() {\n\techo \"" + line + " in=$(pwd)\" >> \"$LOG\"\n\tmkdir -p d" + fmt.Sprint(k) + "; cd d" + fmt.Sprint(k) +
					"\n\t{ sleep 0.02; echo \"end " + p.name + "\" >> \"$LOG\"; } &\n" + set + "}"
				ps = append(ps, p)
			}
			// the processes that a process needs precede or follow its arguments
			for k, p := range ps {
				var ds []ir.IRNode
				for j := range ps {
					if g[k]>>j&1 == 1 {
						ds = append(ds, ps[j])
					}
				}
				if k%2 == 0 {
					p.deps = append(ds, p.deps...)
				} else {
					p.deps = append(p.deps, ds...)
				}
			}
			c.Sig = "launch"
			c.Input = fmt.Sprintf("needs %v, behaviours %v, environment %v, uses of variables %d, image %v", g, behaviour, env, d[3], image)
			bad := func(f string, args ...any) {
				if len(c.Msgs) < 4 {
					c.Msgs = append(c.Msgs, fmt.Sprintf(f, args...))
				}
			}
			if err := generate(filepath.Join(dir, "ws"), image, ps); err != nil {
				bad("the script cannot be generated: %v", err)
				return
			}
			sh := "bash"
			if image {
				sh = "dash" // the entry point of an image is sh
			}
			// a value of the environment is not a process that has been started
			if d[0]%3 == 2 {
				env[linux.EnvVar(procNames[0])] = "from outside"
			}
			out, log, code := shell(dir, sh, "run.sh", env)
			c.Steps = len(log)
			if len(missing) > 0 {
				c.Outcome = "refused"
				if code == 0 || len(log) != 1 {
					bad("variables are missing, but the script ends with code %d after %q", code, log)
				}
				for _, v := range []string{linux.EnvVar(argNames[0]), linux.EnvVar(argNames[1])} {
					if is := regexp.MustCompile(`(?m)^\s*` + v + ` \(missing\)$`).MatchString(out); is != contains(missing, v) {
						bad("variable %s: reported as missing: %v; output:\n%s", v, is, out)
					}
				}
				return
			}
			// what has to run: everything, or what does not need a failing process
			failing := 0
			for k, b := range behaviour {
				if b > 0 {
					failing |= 1 << k
				}
			}
			blocked := 0
			for range ps {
				for k := range ps {
					if g[k]&(failing|blocked) != 0 {
						blocked |= 1 << k
					}
				}
			}
			at := map[string][]int{}
			for l, s := range log {
				w := strings.Fields(s)
				if len(w) >= 2 {
					at[w[0]+" "+w[1]] = append(at[w[0]+" "+w[1]], l)
				}
			}
			exit := len(log)
			for l, s := range log {
				if strings.HasPrefix(s, "exit ") {
					exit = l
				}
			}
			for k, p := range ps {
				starts := at["start "+p.name]
				if len(starts) > 1 || failing == 0 && len(starts) != 1 {
					bad("%s is started %d times: %q", p.name, len(starts), log)
				}
				if blocked>>k&1 == 1 && len(starts) > 0 {
					bad("%s is started although something that it needs has failed: %q", p.name, log)
				}
				for _, l := range starts {
					for j := range ps {
						if g[k]>>j&1 == 1 && (len(at["start "+procNames[j]]) == 0 || at["start "+procNames[j]][0] > l || !strings.Contains(log[l], fmt.Sprintf(" dep%d=up", j))) {
							bad("%s is started before %s: %q", p.name, procNames[j], log)
						}
					}
					for a := range args {
						if v := env[linux.EnvVar(argNames[a])]; needs(k, a) && !strings.Contains(log[l], fmt.Sprintf(" arg%d=%s ", a, v)) {
							bad("%s does not see %q in its variable: %q", p.name, v, log)
						}
					}
					if !strings.HasSuffix(log[l], " in="+filepath.Join(dir, "ws")) {
						bad("%s is not started in the directory of the workspace: %q", p.name, log)
					}
				}
				if failing == 0 {
					if e := at["end "+p.name]; len(e) != 1 || e[0] > exit {
						bad("the script does not wait for %s: %q", p.name, log)
					}
				}
			}
			c.Outcome = fmt.Sprint("code ", code != 0)
			if (code != 0) != (failing != 0) {
				bad("the script ends with code %d: %q\n%s", code, log, out)
			}
			return
		})
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// arguments starts the run commands of Go processes with awkward values and looks at the arguments they receive.
func arguments(r *rep.R) {
	values := []string{"localhost:1234", "", "two words", "a  b", "'", "\"", "$HOME", "`id`", "*", "a\nb", "\\", "--x=y", "é;|&", "~", " lead", "{1,2}"}
	names := []string{"svc.grpc.dial_addr", "a-b", "x"}
	n := len(values) * len(values) * 2 * 3
	r.Enum("arguments of processes", n, 0, func(i int) (c rep.Case) {
		d := rep.Digits(i, len(values), len(values), 2, 3)
		dir := scratch(i%2 == 1)
		defer remove(dir)
		image := d[2] == 1
		args := []ir.IRNode{&node{names[0]}, &node{names[1]}, &node{names[2]}}[:d[3]+1]
		env := map[string]string{}
		var want []string
		for k, a := range args {
			v := values[d[k%2]]
			env[linux.EnvVar(a.Name())] = v
			want = append(want, "--"+a.Name()+"="+v)
		}
		name := "my_proc"
		var run string
		var err error
		ws := filepath.Join(dir, "ws")
		stub := "#!/bin/sh\nfor a in \"$@\"; do printf '%s\\0' \"$a\" >> \"$LOG.args\"; done\n"
		if image {
			run, err = gogen.GenerateBinaryRunFunc(name, args...)
			os.MkdirAll(filepath.Join(ws, name), 0755)
			os.WriteFile(filepath.Join(ws, name, name), []byte(stub), 0755)
		} else {
			run, err = gogen.GenerateRunFunc(name, args...)
			os.MkdirAll(filepath.Join(ws, name, name), 0755)
			os.MkdirAll(filepath.Join(dir, "bin"), 0755)
			os.WriteFile(filepath.Join(dir, "bin", "go"), []byte(stub), 0755)
			env["PATH"] = filepath.Join(dir, "bin") + ":/usr/bin:/bin"
			want = append([]string{"run", "."}, want...)
		}
		c.Sig = "arguments"
		c.Input = fmt.Sprintf("%v image %v", env, image)
		if err == nil {
			err = generate(ws, image, []*proc{{name: "my.proc", run: run, deps: args}})
		}
		if err != nil {
			c.Msgs = append(c.Msgs, err.Error())
			return
		}
		sh := "bash"
		if image {
			sh = "dash"
		}
		out, _, code := shell(dir, sh, "run.sh", env)
		b, _ := os.ReadFile(filepath.Join(dir, "log.args"))
		got := strings.Split(strings.TrimSuffix(string(b), "\x00"), "\x00")
		c.Outcome = "started"
		c.Steps = len(got)
		if code != 0 || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the process receives %q rather than %q (code %d)\n%s", got, want, code, out))
		}
		return
	})
}

// collisions declares pairs of processes with similar names.
func collisions(r *rep.R) {
	names := []string{"a.b", "a_b", "a-b", "A.B", "ab", "a.b.c", "x"}
	r.Enum("similar names", len(names)*len(names)*2, 0, func(i int) (c rep.Case) {
		d := rep.Digits(i, len(names), len(names), 2)
		dir := scratch(false)
		defer remove(dir)
		x, y := names[d[0]], names[d[1]]
		mk := func(n string) *proc {
			return &proc{name: n, run: "f() {\n\techo \"start '" + n + "'\" >> \"$LOG\"\n\t" + linux.EnvVar(n) + "=1\n}"}
		}
		c.Sig = "similar-names"
		c.Input = fmt.Sprintf("processes %q and %q", x, y)
		err := generate(filepath.Join(dir, "ws"), d[2] == 1, []*proc{mk(x), mk(y)})
		if err != nil {
			c.Outcome = "refused"
			if linux.FuncName(x) != linux.FuncName(y) {
				c.Msgs = append(c.Msgs, err.Error())
			}
			return
		}
		out, log, code := shell(dir, "bash", "run.sh", nil)
		c.Outcome = "started"
		c.Steps = len(log)
		for _, n := range []string{x, y} {
			k := 0
			for _, l := range log {
				if l == "start '"+n+"'" {
					k++
				}
			}
			if k != 1 || code != 0 {
				c.Msgs = append(c.Msgs, fmt.Sprintf("%q is started %d times, code %d\n%s", n, k, code, out))
			}
		}
		return
	})
}

// builds runs the build script over processes with and without build scripts of their own.
func builds(r *rep.R) {
	r.Enum("build scripts", rep.Power(4, 3)*2, 0, func(i int) (c rep.Case) {
		d := rep.Digits(i, 4, 4, 4, 2)
		dir := scratch(false)
		defer remove(dir)
		var ps []*proc
		var want []string
		for k := 0; k < 3; k++ {
			p := &proc{name: procNames[k], dir: d[k] > 0}
			if d[k] > 1 {
				p.build = "echo \"build " + p.name + " $(basename $(pwd))\" >> \"$LOG\"\n"
				want = append(want, "build "+p.name+" "+ir.CleanName(p.name))
			}
			if d[k] == 3 {
				p.build += "cd /\n" // does not affect the others
			}
			p.build = strings.Replace(p.build, "echo", "#!/bin/sh\necho", 1)
			ps = append(ps, p)
		}
		c.Sig = "build-script"
		c.Input = fmt.Sprint(d)
		if err := generate(filepath.Join(dir, "ws"), d[3] == 1, ps); err != nil {
			c.Msgs = append(c.Msgs, err.Error())
			return
		}
		out, log, code := shell(dir, []string{"bash", "dash"}[d[3]], "build.sh", nil)
		want = append(want, "exit 0")
		sort.Strings(want)
		sort.Strings(log)
		c.Outcome = "built"
		c.Steps = len(log)
		if fmt.Sprint(log) != fmt.Sprint(want) || code != 0 {
			c.Msgs = append(c.Msgs, fmt.Sprintf("%q happens rather than %q\n%s", log, want, out))
		}
		return
	})
	paths := []string{"p/x.sh", "x.sh", "p/q/x.sh", "../x.sh", "../ws2/x.sh", "p/../../x.sh", "..x/x.sh", "p/../x.sh"}
	r.Enum("places of build scripts", len(paths), 0, func(i int) (c rep.Case) {
		dir := scratch(false)
		defer remove(dir)
		c.Sig = "place-of-build-script"
		c.Input = paths[i]
		ws := filepath.Join(dir, "ws")
		err := linuxcontainer.NewBasicWorkspace("x", ws).AddBuildScript(filepath.FromSlash(ws + "/" + paths[i]))
		outside := i == 3 || i == 4 || i == 5
		c.Outcome = fmt.Sprint(err != nil)
		if (err != nil) != outside {
			c.Msgs = append(c.Msgs, fmt.Sprintf("error: %v", err))
		}
		return
	})
}

// images checks that every process directory reaches the image, with or without build commands of its own.
func images(r *rep.R) {
	r.Enum("docker files", rep.Power(3, 4), 0, func(i int) (c rep.Case) {
		d := rep.Digits(i, 3, 3, 3, 3)
		dir := scratch(false)
		defer remove(dir)
		var ps []*proc
		c.Sig = "docker-file"
		c.Input = fmt.Sprint(d)
		for k := range d {
			p := &proc{name: procNames[k], dir: d[k] > 0}
			if d[k] == 2 {
				p.custom = fmt.Sprintf("FROM golang AS %s\nCOPY ./%s /src\n", ir.CleanName(p.name), ir.CleanName(p.name))
			}
			ps = append(ps, p)
		}
		if err := generate(filepath.Join(dir, "ws"), true, ps); err != nil {
			c.Msgs = append(c.Msgs, err.Error())
			return
		}
		b, _ := os.ReadFile(filepath.Join(dir, "ws", "Dockerfile"))
		stages := map[string]int{}
		stage, final := "", map[string]int{}
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) == 0 || strings.HasPrefix(l, "#") {
				continue
			}
			c.Steps++
			switch w[0] {
			case "FROM":
				stage = ""
				if len(w) == 4 {
					stage = w[3]
					stages[stage]++
				} else {
					final = map[string]int{}
				}
			case "COPY":
				if stage == "" {
					final[strings.Join(w[1:], " ")]++
				}
			}
		}
		for k, p := range ps {
			n := ir.CleanName(p.name)
			local, staged := final[fmt.Sprintf("./%s /%s", n, n)], final[fmt.Sprintf("--from=%s /%s /%s", n, n, n)]
			if wl, ws := b2i(d[k] == 1), b2i(d[k] == 2); local != wl || staged != ws || stages[n] != ws {
				c.Msgs = append(c.Msgs, fmt.Sprintf("%s (kind %d) is built in %d stages and copied %d times from one and %d times from its directory\n%s", p.name, d[k], stages[n], staged, local, b))
			}
		}
		for _, f := range []string{"./run.sh /", "./build.sh /"} {
			if final[f] != 1 {
				c.Msgs = append(c.Msgs, "the image does not have "+f)
			}
		}
		c.Outcome = "complete"
		return
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
