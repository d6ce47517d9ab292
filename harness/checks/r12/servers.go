package r12

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
)

// server is a cache server that keeps to the protocol of Redis or Memcached. Every command passes the gate (if there
// is one) before it takes effect.
type server struct {
	l    net.Listener
	mu   sync.Mutex
	data map[string]string
	mode string           // "", "close": connections are closed, "error": every command is refused
	gate func(client int) // called before a command of the client with that number takes effect
	conn map[net.Conn]bool
	n    int
}

func listen(proto string) *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &server{l: l, data: map[string]string{}, conn: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			down := s.mode == "close"
			n := s.n
			s.n++
			s.conn[c] = true
			s.mu.Unlock()
			if down {
				c.Close()
				continue
			}
			go func() {
				defer c.Close()
				if proto == "redis" {
					s.redis(c, n)
				} else {
					s.memcached(c, n)
				}
			}()
		}
	}()
	return s
}

func (s *server) addr() string { return s.l.Addr().String() }

func (s *server) close() {
	s.l.Close()
	s.drop()
}

func (s *server) drop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conn {
		c.Close()
	}
	s.conn = map[net.Conn]bool{}
}

func (s *server) set(mode string) {
	s.mu.Lock()
	s.mode = mode
	s.mu.Unlock()
	if mode == "close" {
		s.drop()
	}
}

// enter waits until the command may take effect; the server is locked then.
func (s *server) enter(client int) (refuse bool) {
	if s.gate != nil {
		s.gate(client)
	}
	s.mu.Lock()
	return s.mode == "error"
}

func (s *server) redis(c net.Conn, client int) {
	r := bufio.NewReader(c)
	line := func() (string, bool) {
		l, err := r.ReadString('\n')
		return strings.TrimRight(l, "\r\n"), err == nil
	}
	for {
		l, ok := line()
		if !ok || len(l) == 0 || l[0] != '*' {
			return
		}
		n, _ := strconv.Atoi(l[1:])
		args := make([]string, n)
		for i := range args {
			l, ok := line()
			if !ok || l[0] != '$' {
				return
			}
			k, _ := strconv.Atoi(l[1:])
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			args[i] = string(b[:k])
		}
		var out string
		if s.enter(client) {
			out = "-ERR Server is not available\r\n"
		} else {
			out = s.redisCommand(args)
		}
		s.mu.Unlock()
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

func bulk(v string, ok bool) string {
	if !ok {
		return "$-1\r\n"
	}
	return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v)
}

func (s *server) redisCommand(a []string) string {
	arity := func(ok bool) bool { return ok }
	wrong := "-ERR wrong number of arguments for '" + strings.ToLower(a[0]) + "' command\r\n"
	switch strings.ToUpper(a[0]) {
	case "PING":
		return "+PONG\r\n"
	case "SELECT", "AUTH", "CLIENT":
		return "+OK\r\n"
	case "SET":
		if !arity(len(a) >= 3) {
			return wrong
		}
		s.data[a[1]] = a[2]
		return "+OK\r\n"
	case "GET":
		v, ok := s.data[a[1]]
		return bulk(v, ok)
	case "EXISTS":
		n := 0
		for _, k := range a[1:] {
			if _, ok := s.data[k]; ok {
				n++
			}
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "DEL", "UNLINK":
		if !arity(len(a) >= 2) {
			return wrong
		}
		n := 0
		for _, k := range a[1:] {
			if _, ok := s.data[k]; ok {
				n++
				delete(s.data, k)
			}
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "INCR", "INCRBY":
		by := int64(1)
		if len(a) == 3 {
			by, _ = strconv.ParseInt(a[2], 10, 64)
		}
		v, ok := s.data[a[1]]
		if !ok {
			v = "0"
		}
		x, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		if x > 0 && x+by < x {
			return "-ERR increment or decrement would overflow\r\n"
		}
		s.data[a[1]] = strconv.FormatInt(x+by, 10)
		return fmt.Sprintf(":%d\r\n", x+by)
	case "MGET":
		if !arity(len(a) >= 2) {
			return wrong
		}
		out := fmt.Sprintf("*%d\r\n", len(a)-1)
		for _, k := range a[1:] {
			v, ok := s.data[k]
			out += bulk(v, ok)
		}
		return out
	case "MSET":
		if !arity(len(a) >= 3 && len(a)%2 == 1) {
			return wrong
		}
		for i := 1; i+1 < len(a); i += 2 {
			s.data[a[i]] = a[i+1]
		}
		return "+OK\r\n"
	}
	return "-ERR unknown command '" + a[0] + "'\r\n"
}

func (s *server) memcached(c net.Conn, client int) {
	r := bufio.NewReader(c)
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		a := strings.Fields(l)
		if len(a) == 0 {
			return
		}
		var body string
		switch a[0] {
		case "set", "add", "replace", "cas", "append", "prepend":
			k, _ := strconv.Atoi(a[4])
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			body = string(b[:k])
		}
		var out string
		if s.enter(client) {
			out = "SERVER_ERROR not available\r\n"
		} else {
			out = s.memcachedCommand(a, body)
		}
		s.mu.Unlock()
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

func (s *server) memcachedCommand(a []string, body string) string {
	switch a[0] {
	case "version":
		return "VERSION 1\r\n"
	case "get", "gets":
		var out string
		for _, k := range a[1:] {
			if v, ok := s.data[k]; ok {
				out += fmt.Sprintf("VALUE %s 0 %d 1\r\n%s\r\n", k, len(v), v)
			}
		}
		return out + "END\r\n"
	case "set", "add", "replace":
		_, ok := s.data[a[1]]
		if a[0] == "add" && ok || a[0] == "replace" && !ok {
			return "NOT_STORED\r\n"
		}
		s.data[a[1]] = body
		return "STORED\r\n"
	case "delete":
		if _, ok := s.data[a[1]]; !ok {
			return "NOT_FOUND\r\n"
		}
		delete(s.data, a[1])
		return "DELETED\r\n"
	case "incr":
		v, ok := s.data[a[1]]
		if !ok {
			return "NOT_FOUND\r\n"
		}
		x, err := strconv.ParseUint(v, 10, 64)
		if err != nil {
			return "CLIENT_ERROR cannot increment or decrement non-numeric value\r\n"
		}
		by, _ := strconv.ParseUint(a[2], 10, 64)
		s.data[a[1]] = strconv.FormatUint(x+by, 10)
		return s.data[a[1]] + "\r\n"
	}
	return "ERROR\r\n"
}
