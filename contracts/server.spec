# The server: permissions, locking and dispatch (C15)

# request types that only read the directory
pred readonly(t int) = t == const("protocol.KeyLookupType") || t == const("protocol.KeyLookupInEpochType") || t == const("protocol.MonitoringType")
# what the server may handle at an address
pred permitted(sb *application.ServerBase, addr *application.ServerAddress, t int) = has(sb.acceptableReqs, addr) && has(sb.acceptableReqs[addr], t) && sb.acceptableReqs[addr][t]
pred loggerok(l *application.Logger) = l != nil && l.zLogger != nil
pred baseok(sb *application.ServerBase) = sb != nil && loggerok(sb.logger)

# how many requests reached a handler, and the last answer it gave
ghost application.ServerBase.handled int
ghost application.ServerBase.lastreq int
ghost application.ServerBase.lastresp *protocol.Response
# where connections arrive
func arrivedat(int) seq
func hostof(seq) seq
func pathof(seq) seq
func schemeof(seq) seq
func tcpname(*net.TCPAddr) seq
func unixname(*net.UnixAddr) seq
pred endpoint(addr *application.ServerAddress) = if schemeof(content(addr.Address)) == "tcp" then hostof(content(addr.Address)) else pathof(content(addr.Address))

trusted fn url.Parse :: rawURL
  ensures urlok(content(rawURL)) <==> err == nil
  ensures err == nil ==> result != nil && fresh(result) && content(result.Scheme) == schemeof(content(rawURL)) && content(result.Host) == hostof(content(rawURL)) && content(result.Path) == pathof(content(rawURL))

trusted fn net.ResolveTCPAddr :: network, address
  ensures err == nil ==> tcpname(result) == content(address)

trusted fn net.ResolveUnixAddr :: network, address
  ensures err == nil ==> unixname(result) == content(address)

trusted fn net.ListenTCP :: network, laddr
  ensures err == nil ==> result != nil && fresh(result) && arrivedat(result) == tcpname(laddr)

trusted fn net.ListenUnix :: network, laddr
  ensures err == nil ==> result != nil && fresh(result) && arrivedat(result) == unixname(laddr)

trusted fn net.Listener.Accept :: self
  ensures err == nil ==> result != nil && arrivedat(ref(result)) == arrivedat(ref(self)) && ghost("conn.out", result) == ""

trusted fn tls.Server :: conn, config
  ensures result != nil && arrivedat(result) == arrivedat(ref(conn)) && ghost("conn.out", result) == ""

trusted fn net.Conn.RemoteAddr :: self
  ensures result != nil

trusted fn time.NewTimer :: d
  ensures result != nil

trusted fn zap.(*Logger).Sugar :: log
  ensures result != nil

# a request handler: runs only for permitted requests, with the lock
functype requesthandler :: sb, addr, req
  prop C15
  requires req != nil && wellformed(req)
  requires permitted(sb, addr, req.Type)
  requires lockheld(sb) == 2 || lockheld(sb) == 1 && readonly(req.Type)
  modifies sb.handled, sb.lastreq, sb.lastresp
  ensures result != nil
  assume sb.handled == old(sb.handled) + 1 && sb.lastresp == result && sb.lastreq == toint(req)

# a procedure that changes what the lock protects
functype exclusively :: sb
  prop C15
  requires lockheld(sb) == 2

# the payload of a decoded request is of the announced kind, or nothing
pred wellformed(req *protocol.Request) = req.Request == nil || reqtype(req.Type, req.Request) && (named(req.Request) ==> ref(req.Request) != 0)

fn application.(*ServerBase).checkRequestType :: sb, addr, reqType
  prop C15
  requires baseok(sb)
  ensures [permitted_only] err == nil <==> permitted(sb, addr, reqType)

fn application.(*ServerBase).acceptClient :: sb, addr, conn, handler
  prop C15 C11
  requires baseok(sb) && addr != nil && conn != nil && arrivedat(ref(conn)) == endpoint(addr)
  requires lockheld(sb) == 0 && ghost("conn.out", conn) == ""
  conforms handler requesthandler(sb, addr)
  modifies sb.handled, sb.lastreq, sb.lastresp, ghost("conn.out", conn)
  ensures [handled_at_most_once] sb.handled == old(sb.handled) || sb.handled == old(sb.handled) + 1
  ensures [reply_is_the_answer] sb.handled != old(sb.handled) ==> msgof(ghost("conn.out", conn)) == toint(sb.lastresp)
  ensures [refusal_is_malformed] sb.handled == old(sb.handled) ==> ghost("conn.out", conn) == "" || msgerror(ghost("conn.out", conn)) == const("protocol.ErrMalformedMessage")

fn application.(*ServerBase).acceptRequests :: sb, addr, ln, tlsConfig, handler
  prop C15
  opt noreturn
  requires baseok(sb) && addr != nil && ln != nil && arrivedat(ref(ln)) == endpoint(addr)
  conforms handler requesthandler(sb, addr)

fn application.(*ServerAddress).resolveAndListen :: addr
  prop C15
  requires addr != nil
  maypanic true
  ensures [listens_at_the_address] ln != nil && arrivedat(ref(ln)) == endpoint(addr)

fn application.(*ServerBase).ListenAndHandle :: sb, addr, reqHandler
  prop C15
  requires baseok(sb) && addr != nil
  maypanic true
  conforms reqHandler requesthandler(sb, addr)

fn application.(*ServerBase).EpochUpdate :: sb, timer, f
  prop C15
  requires baseok(sb) && timer != nil && timer.Timer != nil && lockheld(sb) == 0
  conforms f exclusively(sb)

fn application.(*ServerBase).HotReload :: sb, f
  prop C15
  requires baseok(sb) && lockheld(sb) == 0
  conforms f exclusively(sb)

fn application.NewLogger :: conf
  prop C15
  requires conf != nil
  maypanic true
  ensures fresh(result) && loggerok(result)

fn application.NewServerBase :: conf, listenVerb, perms
  prop C15
  requires conf != nil && conf.Logger != nil
  maypanic true
  ensures fresh(result) && baseok(result) && result.acceptableReqs == perms

pred serverok(s *server.ConiksServer) = s != nil && baseok(s.ServerBase) && s.epochTimer != nil && s.epochTimer.Timer != nil

# every read is allowed at every address, registrations where some address allows them, nothing else
fn server.NewConiksServer :: conf
  prop C15
  requires conf != nil && conf.CommonConfig != nil && conf.Logger != nil && conf.Policies != nil && conf.LoadedHistoryLength <= 281474976710656 && len(conf.Policies.signKey) == 64 && len(conf.Policies.vrfKey) == 64
  requires forall i int :: {conf.Addresses[i]} 0 <= i && i < len(conf.Addresses) ==> conf.Addresses[i] != nil && conf.Addresses[i].ServerAddress != nil
  maypanic true
  modifies fs().present, fs().data
  loop [perms map[*application.ServerAddress]map[goint]gobool, i int] 0 <= i && i <= len(conf.Addresses)
  loop [perms map[*application.ServerAddress]map[goint]gobool, i int] forall k int :: {conf.Addresses[k]} 0 <= k && k < i ==> has(perms, conf.Addresses[k].ServerAddress)
  loop [perms map[*application.ServerAddress]map[goint]gobool, i int] forall a *application.ServerAddress :: {has(perms, a)} has(perms, a) ==> perms[a] != nil && allocated(perms[a]) && (forall t int :: {perms[a][t]} {has(perms[a], t)} (has(perms[a], t) && perms[a][t]) ==> readonly(t) || t == const("protocol.RegistrationType")) && (forall t int :: {has(perms[a], t)} readonly(t) ==> has(perms[a], t) && perms[a][t])
  loop [perms map[*application.ServerAddress]map[goint]gobool, i int] forall a *application.ServerAddress :: {has(perms, a)} has(perms, a) && has(perms[a], const("protocol.RegistrationType")) && perms[a][const("protocol.RegistrationType")] ==> (exists k int :: {conf.Addresses[k]} 0 <= k && k < i && conf.Addresses[k].ServerAddress == a && conf.Addresses[k].AllowRegistration)
  ensures serverok(result) && dirok(result.dir)
  ensures [reads_everywhere] forall i int, t int :: {permitted(result.ServerBase, conf.Addresses[i].ServerAddress, t)} 0 <= i && i < len(conf.Addresses) && readonly(t) ==> permitted(result.ServerBase, conf.Addresses[i].ServerAddress, t)
  ensures [registration_where_allowed] forall a *application.ServerAddress :: permitted(result.ServerBase, a, const("protocol.RegistrationType")) ==> (exists i int :: {conf.Addresses[i]} 0 <= i && i < len(conf.Addresses) && conf.Addresses[i].ServerAddress == a && conf.Addresses[i].AllowRegistration)
  ensures [nothing_else] forall a *application.ServerAddress, t int :: permitted(result.ServerBase, a, t) ==> readonly(t) || t == const("protocol.RegistrationType")

fn server.(*ConiksServer).HandleRequests :: server, req
  prop C15 C11
  requires serverok(server) && req != nil && wellformed(req)
  requires lockheld(server.ServerBase) == 2 || lockheld(server.ServerBase) == 1 && readonly(req.Type)
  lockinv dirok(server.dir)
  limit server.dir.pad.latestSTR.Epoch < 18446744073709551615
  modifies server.dir.ops, server.dir.op, server.dir.opreq, server.dir.opresp, server.dir.pad.tree.bound, server.dir.pad.tree.kname, server.dir.pad.tree.kval, server.dir.pad.tree.clean, map(server.dir.tbs), server.dir.tbs
  ensures result != nil
  ensures [own_operation] (reqtype(req.Type, req.Request) && named(req.Request) && (readonly(req.Type) || req.Type == const("protocol.RegistrationType"))) ==> server.dir.ops == old(server.dir.ops) + 1 && server.dir.op == req.Type && server.dir.opreq == ref(req.Request) && server.dir.opresp == result
  ensures [mismatch_refused] !(reqtype(req.Type, req.Request) && named(req.Request) && (readonly(req.Type) || req.Type == const("protocol.RegistrationType"))) ==> server.dir.ops == old(server.dir.ops) && bare(result, const("protocol.ErrMalformedMessage"))
  ensures [reads_change_nothing] readonly(req.Type) ==> server.dir.tbs == old(server.dir.tbs) && server.dir.pad.tree.bound == old(server.dir.pad.tree.bound) && server.dir.pad.tree.kval == old(server.dir.pad.tree.kval) && (forall n seq :: {has(server.dir.tbs, n)} has(server.dir.tbs, n) == old(has(server.dir.tbs, n)))

fn server.(*ConiksServer).updatePolicies :: server
  prop C15
  requires serverok(server) && lockheld(server.ServerBase) == 2
  lockinv dirok(server.dir)
  modifies server.dir.policies

fn server.(*ConiksServer).Run :: server, addrs
  prop C15
  requires serverok(server)
  requires forall i int :: {addrs[i]} 0 <= i && i < len(addrs) ==> addrs[i] != nil && addrs[i].ServerAddress != nil
  maypanic true
  modifies server.ServerBase.Verb
