package vh

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"sync"
)

var (
	portMu   sync.Mutex
	usedPort = map[int]bool{}
)

// FreeAddr returns a loopback address nobody listens on and that it has not
// given out before. The port lies below the range the kernel takes outgoing
// connections' ports from, so it stays free until it is used.
func FreeAddr() string {
	portMu.Lock()
	defer portMu.Unlock()

	low := 32768

	if b, err := os.ReadFile("/proc/sys/net/ipv4/ip_local_port_range"); err == nil {
		_, _ = fmt.Sscan(string(b), &low)
	}

	if low < 12000 {
		low = 65000
	}

	for {
		port := 10000 + rand.IntN(low-10000)
		if usedPort[port] && len(usedPort) < (low-10000)/2 {
			continue
		}

		addr := fmt.Sprintf("127.0.0.1:%d", port)

		ln, err := net.Listen("tcp", addr)
		if err != nil {
			continue
		}

		_ = ln.Close()
		usedPort[port] = true

		return addr
	}
}
