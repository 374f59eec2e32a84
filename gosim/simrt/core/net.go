package simcore

// The network as HTTP exchanges: the harness answers each request with a plan.
type NetReq struct {
	Method, URL string
	Header      map[string][]string
	Pid         int
	At          int64
}
type NetRec = NetReq
type NetResp struct {
	DialErr    string // connection failure
	Delay      int64  // until the response headers arrive; <0: never
	Status     int
	Header     map[string]string
	Body       []byte
	Length     int64 // announced Content-Length (-1: not announced)
	CutAt      int   // the connection breaks after so many body bytes (-1: not)
	ChunkDelay int64 // before each piece of the body
	Chunk      int   // bytes per piece
	StallAt    int   // no more data after so many bytes, connection stays open (-1: not)
	Clean      bool  // the break looks like a regular end (no length announced)
}

// NetCall asks the world; the caller then lets time pass as the plan says.
func NetCall(method, url string, hdr map[string][]string) *NetResp {
	p := sysPoint("connect")
	r := NetReq{method, url, hdr, p.Pid, S.now}
	S.NetLog = append(S.NetLog, r)
	S.event("http " + method + " " + url)
	if S.Net == nil {
		return &NetResp{DialErr: "connection refused", CutAt: -1, StallAt: -1}
	}
	S.nocheck++
	x := S.Net(&r)
	S.nocheck--
	return x
}
func SysPoint(n string) *Proc { return sysPoint(n) }
