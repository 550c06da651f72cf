# The registration bot (C17)

# the connections a process opens to the key server
func wire() *net.UnixConn
ghost net.UnixConn.dials int
ghost net.UnixConn.last *net.UnixConn
ghost net.UnixConn.tries int
# how the last exchange with the key server ended, and the answer it gave
ghost net.UnixConn.failed bool
ghost net.UnixConn.answer seq
func peer(int) seq

func lowercase(seq) seq
func foldequal(seq, seq) bool

trusted fn strings.ToLower :: s
  ensures content(result) == lowercase(content(s))

trusted fn strings.EqualFold :: s, t
  ensures result == foldequal(content(s), content(t))

trusted fn net.DialUnix :: network, laddr, raddr
  modifies wire().dials, wire().last, wire().tries
  ensures wire().tries == old(wire().tries) + 1
  ensures err == nil ==> result != nil && fresh(result) && peer(toint(result)) == content(raddr.Name) && ghost("conn.out", result) == "" && wire().dials == old(wire().dials) + 1 && wire().last == result
  ensures err != nil ==> wire().dials == old(wire().dials) && wire().last == old(wire().last)

# the registration a message asks for
pred saidname(b seq) = jtext(saidbody(b), member("protocol.RegistrationRequest.Username"))
# a message that asks to register the account's own name
pred ownregistration(b seq, account seq) = saidtype(b) == const("protocol.RegistrationType") && foldequal(cat(lowercase(account), "@twitter"), saidname(b))

fn bots.SendRequestToCONIKS :: addr, msg
  prop C17
  modifies wire().dials, wire().last, wire().tries, wire().failed, wire().answer
  assume wire().failed == (err != nil) && wire().answer == bytes(ret0)
  ensures [one_attempt] wire().tries == old(wire().tries) + 1
  ensures [at_most_one_message] wire().dials == old(wire().dials) || wire().dials == old(wire().dials) + 1 && peer(toint(wire().last)) == content(addr) && ghost("conn.out", wire().last) == bytes(msg)
  ensures [success_means_sent] err == nil ==> wire().dials == old(wire().dials) + 1

fn bots.(*TwitterBot).HandleRegistration :: bot, username, msg
  prop C17 C11
  requires bot != nil
  modifies wire().dials, wire().last, wire().tries, wire().failed, wire().answer
  ensures [only_own_registrations] wire().tries != old(wire().tries) ==> wire().tries == old(wire().tries) + 1 && isrequest(bytes(msg)) && ownregistration(bytes(msg), content(username))
  ensures [own_registrations_forwarded] isrequest(bytes(msg)) && ownregistration(bytes(msg), content(username)) && hasbody(bytes(msg)) ==> wire().tries == old(wire().tries) + 1
  ensures [unchanged_to_the_server] wire().dials == old(wire().dials) || wire().dials == old(wire().dials) + 1 && peer(toint(wire().last)) == content(bot.coniksAddress) && ghost("conn.out", wire().last) == bytes(msg)
  ensures [refusals_are_malformed] wire().tries == old(wire().tries) ==> wire().dials == old(wire().dials) && msgerror(content(result)) == const("protocol.ErrMalformedMessage")
  ensures [failed_exchange] wire().tries != old(wire().tries) && wire().failed ==> msgerror(content(result)) == const("protocol.ErrDirectory")
  ensures [the_servers_answer] wire().tries != old(wire().tries) && !wire().failed ==> content(result) == wire().answer && wire().dials == old(wire().dials) + 1
