import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py')).read())
BUGS = []

bug('c26-outside', 'C26',
    [('numtree/node32.go', '''func (n *Node32) match(key uint32, bits uint8) *Node32 {
	// If can't be contained in current root node -
	if n.Bits > bits {
		// report nothing.
		return nil
	}

	// If NSB of current tree node is the same as key has -
	if n.Bits == bits {
		// return current node only if it contains data (leaf node) and masked keys are equal.
		if n.Leaf && (n.Key^key)&masks32[n.Bits] == 0 {
			return n
		}

		return nil
	}

	// If key can be contained by current tree node -
	if (n.Key^key)&masks32[n.Bits] != 0 {
		// but it isn't report nothing.
		return nil
	}

''', '''func (n *Node32) match(key uint32, bits uint8) *Node32 {
	// If can't be contained in current root node -
	if n.Bits > bits {
		// report nothing.
		return nil
	}

	// If NSB of current tree node is the same as key has -
	if n.Bits == bits {
		// return current node only if it contains data (leaf node) and masked keys are equal.
		if n.Leaf && (n.Key^key)&masks32[n.Bits] == 0 {
			return n
		}

		return nil
	}

	// If key can be contained by current tree node (point-to-point links have nothing to check) -
	if n.Bits != Key32BitSize-1 && (n.Key^key)&masks32[n.Bits] != 0 {
		// but it isn't report nothing.
		return nil
	}

''')],
    'a lookup in a part of a tree (or a tree) which is a single 31 bits network, with an address outside of it',
    'an entry is found for an address it does not contain',
    prog('/numtree', '''
func main() {
	var n *numtree.Node32
	n = n.Insert(0x0a000000, 8, 1).Insert(0x0a000002, 31, 2)
	s := n.FindNode(0x0a000002, 31)
	if s == nil {
		bad("no node")
	}
	if v, ok := s.Match(0x0a000009, 32); ok {
		bad("found %v", v)
	}
}
'''))

bug('c27-mask-table', 'C27',
    [('iptree/iptree.go', '''		mask := net.CIDRMask(int(n.Bits), iPv4Bits)
		ch <- Pair{''', '''		mask := iPv4MaxMask
		if n.Bits < iPv4Bits {
			mask = net.CIDRMask(int(n.Bits), iPv4Bits)
		}
		ch <- Pair{''')],
    'mask of an IPv4 host got from an enumeration is overwritten',
    'all trees forget what an address is',
    prog('/iptree net', NET + '''
func main() {
	t := iptree.NewTree()
	t.InplaceInsertIP(net.ParseIP("192.0.2.1"), 1)
	for p := range t.Enumerate() {
		for i := range p.Key.Mask {
			p.Key.Mask[i] = 0
		}
	}
	for p := range t.Enumerate() {
		if p.Key.String() != "192.0.2.1/32" {
			bad("%s", p.Key)
		}
	}
}
'''))

bug('c27-normalized-argument', 'C27',
    [('uintX/iptree16/iptree.go', '''	return packIPToUint32(n.IP), ones
''', '''	for i, m := range n.Mask {
		n.IP[i] &= m
	}

	return packIPToUint32(n.IP), ones
''')],
    'a network with host bits is passed and used again',
    'the caller\'s network is changed',
    prog('/uintX/iptree16 net', '''
func main() {
	n := &net.IPNet{IP: net.IP{192, 0, 2, 1}, Mask: net.CIDRMask(24, 32)}
	iptree16.NewTree().GetByNet(n)
	if n.IP[3] != 1 {
		bad("%s", n)
	}
}
'''))

bug('c27-retained', 'C27',
    [('uintX/iptree64/iptree.go', '''func newIPNetFromIP(ip net.IP) *net.IPNet {
	if ip4 := ip.To4(); ip4 != nil {
		return &net.IPNet{IP: ip4, Mask: iPv4MaxMask}
	}
''', '''var hosts [256]*net.IPNet

func newIPNetFromIP(ip net.IP) *net.IPNet {
	if ip4 := ip.To4(); ip4 != nil {
		// Hosts of local network are asked for again and again.
		if ip4[0] == 127 && ip4[1] == 0 && ip4[2] == 0 {
			n := hosts[ip4[3]]
			if n == nil {
				n = &net.IPNet{IP: ip4, Mask: iPv4MaxMask}
				hosts[ip4[3]] = n
			}

			return n
		}

		return &net.IPNet{IP: ip4, Mask: iPv4MaxMask}
	}
''')],
    'an address of 127.0.0/24 is passed, its bytes are overwritten and the address is used again',
    'a wrong entry is found',
    prog('/uintX/iptree64 net', '''
func main() {
	t := iptree64.NewTree()
	ip := net.IP{127, 0, 0, 1}
	t.InplaceInsertIP(ip, 1)
	ip[0] = 10
	if _, ok := t.GetByIP(net.IP{127, 0, 0, 1}); !ok {
		bad("lost")
	}
}
'''))
