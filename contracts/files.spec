# Key, root and configuration files (C19)

# the file system: which paths can be opened and what they hold
func fs() *os.File
ghost os.File.present map[seq]bool
ghost os.File.data map[seq]seq

# paths
func isabs(seq) bool
func pathdir(seq) seq
func pathjoin(seq, seq) seq
pred resolved(f seq, o seq) = if isabs(f) then f else pathjoin(pathdir(o), f)
# bytes that are a JSON document of the type decoded into
func decodes(seq) bool

trusted fn fmt.Errorf :: format, a
  ensures result != nil

trusted fn errors.New :: text
  ensures result != nil

trusted fn os.Stat :: name
  ensures err == nil <==> fs().present[content(name)]
  ensures err == nil ==> result != nil

trusted fn ioutil.ReadFile :: filename
  ensures err == nil ==> fresh(result) && fs().present[content(filename)] && bytes(result) == fs().data[content(filename)]

trusted fn ioutil.WriteFile :: filename, data, perm
  modifies fs().present, fs().data
  ensures err == nil ==> fs().present[content(filename)] && fs().data[content(filename)] == bytes(data)
  ensures forall p seq :: {fs().present[p]} {fs().data[p]} p != content(filename) ==> (fs().present[p] <==> old(fs().present[p])) && fs().data[p] == old(fs().data[p])

trusted fn filepath.IsAbs :: path
  ensures result == isabs(content(path))

trusted fn filepath.Dir :: path
  ensures content(result) == pathdir(content(path))

trusted fn filepath.Join :: elem
  ensures len(elem) == 2 ==> content(result) == pathjoin(content(elem[0]), content(elem[1]))

pred untouched(p seq) = (fs().present[p] <==> old(fs().present[p])) && fs().data[p] == old(fs().data[p])
# what writing a file may do to the file system
pred wrote(f seq, failed bool) = (old(fs().present[f]) ==> failed && untouched(f)) && (forall p seq :: {fs().present[p]} {fs().data[p]} p != f ==> untouched(p))

fn utils.WriteFile :: filename, buf, perm
  prop C19
  modifies fs().present, fs().data
  ensures [never_replaces] old(fs().present[content(filename)]) ==> err != nil && untouched(content(filename))
  ensures [nothing_else] forall p seq :: {fs().present[p]} {fs().data[p]} p != content(filename) ==> untouched(p)
  ensures [written] err == nil ==> fs().present[content(filename)] && fs().data[content(filename)] == bytes(buf)

fn utils.ResolvePath :: file, other
  prop C19
  ensures [against_the_directory] content(result) == resolved(content(file), content(other))

fn application.NewCommonConfig :: file, encoding, logger
  prop C19 C15
  ensures result != nil && fresh(result) && content(result.Path) == content(file) && content(result.Encoding) == content(encoding) && result.Logger == logger && result.loader != nil

fn application.LoadSigningPubKey :: path, file
  prop C19 C11
  ensures [the_key_in_the_file] err == nil ==> len(result) == 32 && fs().present[resolved(content(path), content(file))] && bytes(result) == fs().data[resolved(content(path), content(file))]
  ensures [nothing_usable] err != nil ==> result == nil

fn application.LoadInitSTR :: path, file
  prop C19 C11
  ensures [a_root_of_epoch_0] err == nil ==> result != nil && result.SignedTreeRoot != nil && result.Policies != nil && result.SignedTreeRoot.Epoch == 0
  ensures [from_the_file] err == nil ==> fs().present[resolved(content(path), content(file))] && decodes(fs().data[resolved(content(path), content(file))])
  ensures [nothing_usable] err != nil ==> result == nil

fn application.SaveSTR :: file, str
  prop C19
  modifies fs().present, fs().data
  ensures [never_replaces] old(fs().present[content(file)]) ==> err != nil && untouched(content(file))
  ensures [nothing_else] forall p seq :: {fs().present[p]} {fs().data[p]} p != content(file) ==> untouched(p)
  ensures [reported] err == nil ==> fs().present[content(file)]

fn server.(*Config).Load :: conf, file, encoding
  prop C19 C15
  requires conf != nil && conf.Policies == nil && conf.Addresses == nil
  modifies *conf
  loop [i int] i >= 0 && (forall k int :: {conf.Addresses[k]} 0 <= k && k < i && k < len(conf.Addresses) ==> conf.Addresses[k] != nil && conf.Addresses[k].ServerAddress != nil)
  ensures [own_path] conf.CommonConfig != nil && fresh(conf.CommonConfig) && content(conf.Path) == content(file) && content(conf.Encoding) == content(encoding)
  ensures [complete] err == nil ==> conf.Policies != nil && conf.Logger != nil
  ensures err == nil ==> (forall i int :: {conf.Addresses[i]} 0 <= i && i < len(conf.Addresses) ==> conf.Addresses[i] != nil && conf.Addresses[i].ServerAddress != nil)
  ensures [signing_key] err == nil ==> len(conf.Policies.signKey) == 64 && fs().present[resolved(content(conf.Policies.SignKeyPath), content(file))] && bytes(conf.Policies.signKey) == fs().data[resolved(content(conf.Policies.SignKeyPath), content(file))]
  ensures [vrf_key] err == nil ==> len(conf.Policies.vrfKey) == 64 && fs().present[resolved(content(conf.Policies.VRFKeyPath), content(file))] && bytes(conf.Policies.vrfKey) == fs().data[resolved(content(conf.Policies.VRFKeyPath), content(file))]

fn server.(*Config).Save :: conf
  prop C19
  requires conf != nil && conf.CommonConfig != nil && conf.loader != nil
  modifies fs().present, fs().data
  ensures [never_replaces] old(fs().present[content(conf.Path)]) ==> err != nil && untouched(content(conf.Path))
  ensures [nothing_else] forall p seq :: {fs().present[p]} {fs().data[p]} p != content(conf.Path) ==> untouched(p)
  ensures [reported] err == nil ==> fs().present[content(conf.Path)]

fn client.(*Config).Load :: conf, file, encoding
  prop C19
  requires conf != nil && conf.SigningPubKey == nil && conf.InitSTR == nil
  modifies *conf
  ensures [own_path] conf.CommonConfig != nil && fresh(conf.CommonConfig) && content(conf.Path) == content(file) && content(conf.Encoding) == content(encoding)
  ensures [signing_key] err == nil ==> len(conf.SigningPubKey) == 32 && fs().present[resolved(content(conf.SignPubkeyPath), content(file))] && bytes(conf.SigningPubKey) == fs().data[resolved(content(conf.SignPubkeyPath), content(file))]
  ensures [root] err == nil ==> conf.InitSTR != nil && conf.InitSTR.SignedTreeRoot != nil && conf.InitSTR.Policies != nil && conf.InitSTR.SignedTreeRoot.Epoch == 0 && fs().present[resolved(content(conf.InitSTRPath), content(file))]

fn client.(*Config).Save :: conf
  prop C19
  requires conf != nil && conf.CommonConfig != nil && conf.loader != nil
  modifies fs().present, fs().data
  ensures [never_replaces] old(fs().present[content(conf.Path)]) ==> err != nil && untouched(content(conf.Path))
  ensures [nothing_else] forall p seq :: {fs().present[p]} {fs().data[p]} p != content(conf.Path) ==> untouched(p)
  ensures [reported] err == nil ==> fs().present[content(conf.Path)]

fn bots.(*TwitterConfig).Load :: conf, file, encoding
  prop C19
  requires conf != nil
  modifies *conf
  ensures [own_path] conf.CommonConfig != nil && fresh(conf.CommonConfig) && content(conf.Path) == content(file) && content(conf.Encoding) == content(encoding)

fn bots.(*TwitterConfig).Save :: conf
  prop C19
  requires conf != nil && conf.CommonConfig != nil && conf.loader != nil
  modifies fs().present, fs().data
  ensures [never_replaces] old(fs().present[content(conf.Path)]) ==> err != nil && untouched(content(conf.Path))
  ensures [nothing_else] forall p seq :: {fs().present[p]} {fs().data[p]} p != content(conf.Path) ==> untouched(p)
  ensures [reported] err == nil ==> fs().present[content(conf.Path)]
