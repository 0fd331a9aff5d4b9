// Code generated by tools/genreg.py; DO NOT EDIT.

package props

// Registry maps harness names to their functions.
var Registry = map[string]func(){
	"C01Client": C01Client,
	"C01Server": C01Server,
	"C01ServerInit": C01ServerInit,
	"C01Sizes": C01Sizes,
	"C02Client": C02Client,
	"C02Server": C02Server,
	"C02Sizes": C02Sizes,
	"C03Client": C03Client,
	"C03Default": C03Default,
	"C03Server": C03Server,
	"C03Trunc": C03Trunc,
	"C04NoCodecRecv": C04NoCodecRecv,
	"C04NoCodecSend": C04NoCodecSend,
	"C04RoundTrip": C04RoundTrip,
	"C05Client": C05Client,
	"C05Server": C05Server,
	"C06Cmd": C06Cmd,
	"C06Flags": C06Flags,
	"C07Middleware": C07Middleware,
	"C07Reject": C07Reject,
	"C07Route": C07Route,
	"C08Client": C08Client,
	"C08Concurrent": C08Concurrent,
	"C08Server": C08Server,
	"C09Client": C09Client,
	"C09Origin": C09Origin,
	"C09Server": C09Server,
	"C10Order": C10Order,
	"C11Client": C11Client,
	"C11ClientRace": C11ClientRace,
	"C11Prompt": C11Prompt,
	"C11Server": C11Server,
	"C11ServerRace": C11ServerRace,
	"C12Client": C12Client,
	"C12ClientRest": C12ClientRest,
	"C12Rest": C12Rest,
	"C12Server": C12Server,
	"C13Client": C13Client,
	"C13ClientRace": C13ClientRace,
	"C13Race": C13Race,
	"C13Server": C13Server,
	"C14Client": C14Client,
	"C14Early": C14Early,
	"C14Server": C14Server,
	"C15Client": C15Client,
	"C15Send": C15Send,
	"C15Server": C15Server,
	"C15ServerSend": C15ServerSend,
	"C16Client": C16Client,
	"C16Reset": C16Reset,
	"C16Send": C16Send,
	"C16Server": C16Server,
	"C16Stream": C16Stream,
	"C17Client": C17Client,
	"C17Close": C17Close,
	"C17Handlers": C17Handlers,
	"C17Refused": C17Refused,
	"C17Reuse": C17Reuse,
	"C17Server": C17Server,
	"C18Batch": C18Batch,
	"C18Client": C18Client,
	"C18Handler": C18Handler,
	"C18Server": C18Server,
	"C18Stall": C18Stall,
	"C18Timeout": C18Timeout,
	"C19Burst": C19Burst,
	"C19Client": C19Client,
	"C19Raw": C19Raw,
	"C19Server": C19Server,
	"C19ServerOut": C19ServerOut,
	"C20Handler": C20Handler,
	"C20Kick": C20Kick,
	"C20Race": C20Race,
	"C20Seq": C20Seq,
	"C20Takeover": C20Takeover,
	"C20Three": C20Three,
	"C21Client": C21Client,
	"C21Notify": C21Notify,
	"C21Server": C21Server,
	"C22Burst": C22Burst,
	"C22Inflight": C22Inflight,
	"C22Race": C22Race,
	"C22Rate": C22Rate,
	"C23Hook": C23Hook,
	"C23Shutdown": C23Shutdown,
	"C23Start": C23Start,
	"C24End": C24End,
	"C24Gate": C24Gate,
	"C24Race": C24Race,
	"C25Close": C25Close,
	"C25OnConnect": C25OnConnect,
	"C25Race": C25Race,
	"C25Recover": C25Recover,
	"C25Stale": C25Stale,
	"C26Close": C26Close,
	"C26Failover": C26Failover,
	"C26Reuse": C26Reuse,
	"C26Weights": C26Weights,
	"C26Zero": C26Zero,
	"C27Early": C27Early,
	"C27Empty": C27Empty,
	"C27GiveUp": C27GiveUp,
	"C27Pipe": C27Pipe,
	"C28Frames": C28Frames,
	"C28Read": C28Read,
	"C28Write": C28Write,
	"C29Deep": C29Deep,
	"C29Fields": C29Fields,
	"C29Garbage": C29Garbage,
	"C29Length": C29Length,
	"C29RoundTrip": C29RoundTrip,
	"C29Short": C29Short,
	"C30Call": C30Call,
	"C30Parallel": C30Parallel,
	"C30Response": C30Response,
	"C30Serve": C30Serve,
	"C32Accept": C32Accept,
	"C32Dial": C32Dial,
	"C32Options": C32Options,
	"C32Server": C32Server,
	"C32TCP": C32TCP,
	"C33Busy": C33Busy,
	"C33Client": C33Client,
	"C33Early": C33Early,
	"C33Server": C33Server,
	"C34Bindings": C34Bindings,
	"C34Listen": C34Listen,
	"C34Options": C34Options,
	"C35Client": C35Client,
	"C35Late": C35Late,
	"C35Server": C35Server,
	"C35Walk": C35Walk,
	"C36Faults": C36Faults,
	"C36Latency": C36Latency,
	"C36Requests": C36Requests,
	"C37Accept": C37Accept,
	"C37Dial": C37Dial,
	"C37Serve": C37Serve,
	"C38Pace": C38Pace,
	"C39API": C39API,
	"C39Channel": C39Channel,
	"C39Client": C39Client,
	"C39Manage": C39Manage,
	"C39Mux": C39Mux,
	"C39Reconnect": C39Reconnect,
	"C39Server": C39Server,
	"C39Stream": C39Stream,
	"C40API": C40API,
	"C40Calls": C40Calls,
	"C40Channel": C40Channel,
	"C40Client": C40Client,
	"C40Conns": C40Conns,
	"C40Dialled": C40Dialled,
	"C40Overlay": C40Overlay,
	"C40Reconnect": C40Reconnect,
	"C40Server": C40Server,
	"C40Servers": C40Servers,
	"C41ReadTimeout": C41ReadTimeout,
	"C41Reader": C41Reader,
	"C41Stall": C41Stall,
	"C41Writer": C41Writer,
}
