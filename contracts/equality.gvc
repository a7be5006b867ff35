package ocfl

func (f Fixity).Checksums(filename) (res)
  prop C21
  ensures some: forall a string :: {a in res} a in res <==> (a in f && (exists d string :: d in f[a] && bag(f[a][d])[filename] > 0))
  ensures right: forall a string :: {res[a]} a in res ==> res[a] in f[a] && bag(f[a][res[a]])[filename] > 0
  loop 1
  invariant some: forall a string :: {a in result} a in result <==> (a in visited() && (exists d string :: d in f[a] && bag(f[a][d])[filename] > 0))
  invariant right: forall a string :: {result[a]} a in result ==> result[a] in f[a] && bag(f[a][result[a]])[filename] > 0
  loop 2
  invariant none: forall d string :: {d in visited()} d in visited() ==> bag(f[da][d])[filename] == 0
  invariant same: dom(result) == entry(dom(result)) && vals(result) == entry(vals(result))
  loop 3
  invariant none: bagn(fs, idx())[filename] == 0 && !found
  invariant same: dom(result) == entry(dom(result)) && vals(result) == entry(vals(result))

func (i *InventoryBase).GetContentDir() (dir)
  prop C24
  ensures dir: dir == ite(i.ContentDirectory == "", "content", i.ContentDirectory)

func (i *InventoryBase).BuildManifestNameVersion(stateFilename, version) (path)
  prop C24
  ensures path: path == filepath.ToSlash(filepath.Clean(filepath.Join(version, ite(i.ContentDirectory == "", "content", i.ContentDirectory), stateFilename)))

func sliceContains(s, vs) (res)
  prop C07 C19
  ensures all: res <==> (forall v string :: {bag(vs)[v]} bag(vs)[v] > 0 ==> bag(s)[v] > 0)
  loop 1
  invariant all: forall v string :: {bagn(vs, idx())[v]} bagn(vs, idx())[v] > 0 ==> bag(s)[v] > 0

def sameset(a, b) = forall p string :: bag(a)[p] > 0 <==> bag(b)[p] > 0
def eqdp(m, n) = len(m) == len(n) && (forall d string :: {d in m} d in m ==> d in n && len(m[d]) == len(n[d]) && (forall p string :: bag(m[d])[p] > 0 <==> bag(n[d])[p] > 0))

func equalDigestPaths(m, m2) (res)
  prop C07
  ensures eq: res <==> eqdp(m, m2)
  loop 1
  invariant eq: forall d string :: {d in visited()} d in visited() ==> d in m2 && len(m[d]) == len(m2[d]) && (forall p string :: {bag(m[d])[p]} {bag(m2[d])[p]} bag(m[d])[p] > 0 <==> bag(m2[d])[p] > 0)

// state2 is contained in state: every logical path has the same digest (up to hex case)
def stin(s, s2) = forall d string, p string :: {cnt(s2, d, p)} cnt(s2, d, p) > 0 ==> (exists e string :: e in s && strings.ToLower(e) == strings.ToLower(d) && bag(s[e])[p] > 0)

func stateContains(state, state2) (res)
  prop C07
  ensures all: res <==> stin(state, state2)
  loop 1
  invariant own: sep0(lower) && (forall l string :: {ref(lower[l])} l in lower ==> ref(lower[l]) == 0 || fresh(lower[l]))
  invariant all: forall d string, p string :: {bag(state[d])[p]} d in visited() && bag(state[d])[p] > 0 ==> cnt(lower, strings.ToLower(d), p) > 0
  invariant only: forall l string, p string :: {cnt(lower, l, p)} cnt(lower, l, p) > 0 ==> (exists d string :: d in visited() && strings.ToLower(d) == l && bag(state[d])[p] > 0)
  loop 2
  invariant all: forall d string, p string :: {bag(state2[d])[p]} d in visited() && bag(state2[d])[p] > 0 ==> cnt(lower, strings.ToLower(d), p) > 0

func (v *Version).EqualState(v2) (res)
  prop C07
  requires wf: v.State != nil && (v2 != nil ==> v2.State != nil)
  ensures eq: res <==> (v2 != nil && stin(v.State.State, v2.State.State) && stin(v2.State.State, v.State.State))

def metaeq(v, v2) = v2 != nil && libf("time.Time.String", v.Created.Time) == libf("time.Time.String", v2.Created.Time) && v.Message.string == v2.Message.string && v.User.Name.string == v2.User.Name.string && v.User.Address.string == v2.User.Address.string

func (v *Version).EqualMeta(v2) (res)
  prop C07
  requires wf: v.Created != nil && v.Message != nil && v.User != nil && v.User.Name != nil && v.User.Address != nil
  requires wf2: v2 != nil ==> v2.Created != nil && v2.Message != nil && v2.User != nil && v2.User.Name != nil && v2.User.Address != nil
  ensures eq: res <==> metaeq(v, v2)


def wfver(v) = v.Created != nil && v.Message != nil && v.State != nil && v.User != nil && v.User.Name != nil && v.User.Address != nil
def wfinv(i) = i.Head != nil && (i.Versions != nil ==> (forall v string :: {i.Versions.Versions[v]} v in i.Versions.Versions ==> i.Versions.Versions[v] != nil && wfver(i.Versions.Versions[v])))

func (i *InventoryBase).isEqual(i2) (res)
  prop C07
  requires wf: i2 != nil && wfinv(i) && wfinv(i2)
  ensures eq: res <==> (i.Id == i2.Id && i.DigestAlgorithm == i2.DigestAlgorithm && i.Type == i2.Type && i.Head.string == i2.Head.string && i.ContentDirectory == i2.ContentDirectory
    && len(i.fixityDigestAlgorithms) == len(i2.fixityDigestAlgorithms) && (forall a string :: bag(i2.fixityDigestAlgorithms)[a] > 0 ==> bag(i.fixityDigestAlgorithms)[a] > 0)
    && (i.Manifest == nil <==> i2.Manifest == nil) && (i.Manifest != nil ==> eqdp(i.Manifest.Manifest, i2.Manifest.Manifest))
    && len(i.Fixity) == len(i2.Fixity) && (forall a string :: {a in i.Fixity} a in i.Fixity ==> a in i2.Fixity && eqdp(i.Fixity[a], i2.Fixity[a]))
    && (i.Versions == nil <==> i2.Versions == nil) && (i.Versions != nil ==> len(i.Versions.Versions) == len(i2.Versions.Versions)
        && (forall v string :: {v in i.Versions.Versions} v in i.Versions.Versions ==> v in i2.Versions.Versions && metaeq(i.Versions.Versions[v], i2.Versions.Versions[v])
            && stin(i.Versions.Versions[v].State.State, i2.Versions.Versions[v].State.State) && stin(i2.Versions.Versions[v].State.State, i.Versions.Versions[v].State.State))))
  loop 1
  invariant eq: forall a string :: {a in visited()} a in visited() ==> a in i2.Fixity && eqdp(i.Fixity[a], i2.Fixity[a])
  loop 2
  invariant eq: forall v string :: {v in visited()} v in visited() ==> v in i2.Versions.Versions && metaeq(i.Versions.Versions[v], i2.Versions.Versions[v])
            && stin(i.Versions.Versions[v].State.State, i2.Versions.Versions[v].State.State) && stin(i2.Versions.Versions[v].State.State, i.Versions.Versions[v].State.State)
