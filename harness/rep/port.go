package rep

import (
	"fmt"
	"net"
	"os"
	"sync"
)

var ports struct {
	sync.Mutex
	next int
}

// FreeAddr gives a loopback address nobody listens on. It lies outside of the range that the system takes ports of
// outgoing connections from, and is not given twice by one process, so nobody else takes it in the meantime.
func FreeAddr() string {
	ports.Lock()
	defer ports.Unlock()
	const lo, n = 10000, 22000
	if ports.next == 0 {
		ports.next = os.Getpid() * 977
	}
	for i := 0; i < n; i++ {
		ports.next++
		addr := fmt.Sprintf("127.0.0.1:%d", lo+ports.next%n)
		if l, err := net.Listen("tcp", addr); err == nil {
			l.Close()
			return addr
		}
	}
	panic("no free port")
}
