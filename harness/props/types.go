package props

import "net"

type netConn = net.Conn
