# The command-line client's handling of a server's answers (C11)

func urlok(seq) bool

trusted fn net.Dial :: network, address
  ensures err == nil ==> result != nil && fresh(result) && ghost("conn.out", result) == ""

trusted fn tls.Client :: conn, config
  ensures result != nil && fresh(result) && ghost("conn.out", result) == ""

pred usableaddress(c *client.Config) = urlok(content(c.Address)) && (content(c.RegAddress) == "" || urlok(content(c.RegAddress)))

fn testutil.NewTCPClient :: msg, address
  prop C11
  requires urlok(content(address))

fn testutil.NewUnixClient :: msg, address
  prop C11
  requires urlok(content(address))
  modifies wire().dials, wire().last, wire().tries

fn cmd.register :: cc, conf, name, key
  prop C11
  requires ccok(cc) && conf != nil && usableaddress(conf)
  modifies cc.AudState.verifiedSTR, map(cc.TBs), map(cc.Bindings), wire().dials, wire().last, wire().tries

fn cmd.keyLookup :: cc, conf, name
  prop C11
  requires ccok(cc) && conf != nil && usableaddress(conf)
  modifies cc.AudState.verifiedSTR, map(cc.TBs), map(cc.Bindings), wire().dials, wire().last, wire().tries
