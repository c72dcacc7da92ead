// overlay: rtp
package rtp

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"strconv"
	"syscall"
	"testing"
)

// TestVerifC11 binds through a fake system.
func TestVerifC11(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ip := netip.AddrFrom4([4]byte{127, 0, 0, 1})
	for it := 0; it < 20000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		var lo, hi int
		switch r.Intn(6) {
		case 0:
			lo, hi = -r.Intn(3), -r.Intn(3)
		case 1:
			lo = 1 + r.Intn(70000)
			hi = lo
		case 2:
			lo, hi = r.Intn(3)-1, 1+r.Intn(6)
		case 3:
			lo, hi = 65535-r.Intn(6), []int{0, -1, 65535, 65536, 70000}[r.Intn(5)]
		case 4:
			lo, hi = 100+r.Intn(20), 95+r.Intn(20)
		case 5:
			lo = 1 + r.Intn(60000)
			hi = lo + r.Intn(8)
		}
		if lo <= 0 && hi > 0 && hi > 100 {
			continue
		}
		free := map[int]bool{}
		other := map[int]error{}
		nlo, nhi := lo, hi
		switch {
		case lo <= 0 && hi <= 0:
			nlo, nhi = 0, 0
		case lo == hi:
		default:
			if nlo <= 0 {
				nlo = 1
			}
			if nhi <= 0 || nhi > 65535 {
				nhi = 65535
			}
		}
		for p := nlo; p <= nhi && p < nlo+100; p++ {
			switch r.Intn(8) {
			case 0:
				free[p] = true
			case 1:
				if r.Intn(3) == 0 {
					other[p] = errors.New("other")
				}
			}
		}
		hist := fmt.Sprintf("range %d..%d, free %v, failing %v", lo, hi, free, other)
		bad := func(f string, a ...any) { t.Fatalf("FAILING-INPUT C11: %s: %s", hist, fmt.Sprintf(f, a...)) }
		tried := map[int]bool{}
		sock := &net.UDPConn{}
		var stop error
		ended := false
		c, err := bindRange(lo, hi, ip, func(port int, a netip.Addr) (*net.UDPConn, error) {
			if a != ip {
				bad("address %v", a)
			}
			if ended {
				bad("went on after the end (port %d)", port)
			}
			if tried[port] {
				bad("port %d tried twice", port)
			}
			if port < nlo || port > nhi {
				bad("port %d outside of the range", port)
			}
			tried[port] = true
			if free[port] {
				ended = true
				return sock, nil
			}
			if e := other[port]; e != nil {
				ended, stop = true, e
				return nil, e
			}
			return nil, &net.OpError{Op: "listen", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		})
		switch {
		case ended && stop == nil:
			if c != sock || err != nil {
				bad("returned %v, %v", c, err)
			}
		case ended:
			if err != stop {
				bad("returned %v, want %v", err, stop)
			}
		default:
			if err == nil {
				bad("succeeded without a socket")
			}
			if n := nhi - nlo + 1; nlo <= nhi && len(tried) != n {
				bad("gave up after %d of %d ports", len(tried), n)
			}
			if nlo > nhi && len(tried) != 0 {
				bad("tried ports of an empty range")
			}
		}
	}
}
