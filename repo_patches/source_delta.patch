From 5c4b0519bf55d6e7b2b49e3765b562ec4ebb06ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 01/31] fix: do not let concurrent REST requests share the
 variables of the command line

---
 hieraserver/rest/rest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index da49da3..b3710df 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -133,7 +133,8 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 		opts.Merge = params.Get(`merge`)
 		opts.Type = params.Get(`type`)
-		opts.Variables = append(opts.Variables, params[`var`]...)
+		// cmdOpts is shared by all requests so the slice must be copied before it is extended
+		opts.Variables = append(append([]string{}, cmdOpts.Variables...), params[`var`]...)
 		opts.RenderAs = `json`
 		out := bytes.Buffer{}
 		if hiera.LookupAndRender(ctx, &opts, []string{key}, &out) {
-- 
2.43.0


From 9dfc7ff6f074a055fb69595d39c2dd6d29ad9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:31 +0000
Subject: [PATCH 02/31] fix: a configuration that cannot be loaded no longer
 blocks later lookups

---
 session/invocation.go | 47 +++++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index e1233b8..4ec654f 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -73,41 +73,30 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 		return rc
 	}
 
+	rc := Resolve(ic, loadConfig(sc, configPath), moduleName)
+	ic.configs[configPath] = rc
+	return rc
+}
+
+// loadConfig returns the config for the given path. The first successful load is shared by all. A load that fails
+// leaves nothing behind so those that wait for it, and those that come later, will try again.
+func loadConfig(sc *sync.Map, configPath string) api.Config {
 	cp := hieraConfigsPrefix + configPath
 	if val, ok := sc.Load(cp); ok {
-		rc := Resolve(ic, val.(api.Config), moduleName)
-		ic.configs[configPath] = rc
-		return rc
+		return val.(api.Config)
 	}
 
-	lc := hieraLockPrefix + configPath
-
-	myLock := sync.RWMutex{}
-	myLock.Lock()
+	lv, _ := sc.LoadOrStore(hieraLockPrefix+configPath, &sync.Mutex{})
+	lock := lv.(*sync.Mutex)
+	lock.Lock()
+	defer lock.Unlock()
 
-	var conf api.Config
-	if lv, loaded := sc.LoadOrStore(lc, &myLock); loaded {
-		// myLock was not stored so unlock it
-		myLock.Unlock()
-
-		if lock, ok := lv.(*sync.RWMutex); ok {
-			// The loaded value is a lock. Wait for new config to be stored in place of
-			// this lock
-			lock.RLock()
-			val, _ := sc.Load(cp)
-			conf = val.(api.Config)
-			lock.RUnlock()
-		} else {
-			conf = lv.(api.Config)
-		}
-	} else {
-		conf = config.New(configPath)
-		sc.Store(cp, conf)
-		myLock.Unlock()
+	if val, ok := sc.Load(cp); ok {
+		return val.(api.Config)
 	}
-	rc := Resolve(ic, conf, moduleName)
-	ic.configs[configPath] = rc
-	return rc
+	conf := config.New(configPath)
+	sc.Store(cp, conf)
+	return conf
 }
 
 func (ic *ivContext) ExplainMode() bool {
-- 
2.43.0


From 83b1ebf5ac5d4ed6a156d1204e976c98e09c04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:07 +0000
Subject: [PATCH 03/31] fix: detect recursive lookups and recursive scope
 variables

---
 session/interpolate.go |  6 ++++--
 session/invocation.go  | 25 ++++++++++++++++---------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/session/interpolate.go b/session/interpolate.go
index 565b8c7..b0f2004 100644
--- a/session/interpolate.go
+++ b/session/interpolate.go
@@ -161,8 +161,10 @@ func (ic *ivContext) InterpolateString(str string, allowMethods bool) (dgo.Value
 func (ic *ivContext) InterpolateInScope(expr string, allowMethods bool) dgo.Value {
 	key := api.NewKey(expr)
 	if val := ic.Scope().Get(key.Root()); val != nil {
-		val, _ = ic.doInterpolate(val, allowMethods)
-		return key.Dig(ic, val)
+		return ic.withName(`%{`+key.Root()+`}`, func() dgo.Value {
+			val, _ := ic.doInterpolate(val, allowMethods)
+			return key.Dig(ic, val)
+		})
 	}
 	return nil
 }
diff --git a/session/invocation.go b/session/invocation.go
index 4ec654f..20d3df0 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -238,20 +238,27 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 		})
 	}
 
-	v := ic.TopProvider()(ic.ServerContext(options), rootKey)
-	if v != nil {
-		dc := ic.ForData()
-		v = dc.Interpolate(v, true)
-		v = key.Dig(dc, v)
-	}
-	return v
+	return ic.WithKey(key, func() dgo.Value {
+		v := ic.TopProvider()(ic.ServerContext(options), rootKey)
+		if v != nil {
+			dc := ic.ForData()
+			v = dc.Interpolate(v, true)
+			v = key.Dig(dc, v)
+		}
+		return v
+	})
 }
 
 func (ic *ivContext) WithKey(key api.Key, actor dgo.Producer) dgo.Value {
-	if util.ContainsString(ic.nameStack, key.Source()) {
+	return ic.withName(key.Source(), actor)
+}
+
+// withName guards against endless recursion. It calls the actor unless a call with the same name is already in progress.
+func (ic *ivContext) withName(name string, actor dgo.Producer) dgo.Value {
+	if util.ContainsString(ic.nameStack, name) {
 		panic(fmt.Errorf(`recursive lookup detected in [%s]`, strings.Join(ic.nameStack, `, `)))
 	}
-	ic.nameStack = append(ic.nameStack, key.Source())
+	ic.nameStack = append(ic.nameStack, name)
 	defer func() {
 		ic.nameStack = ic.nameStack[:len(ic.nameStack)-1]
 	}()
-- 
2.43.0


From 34eb7080801526c659566cb3fc5cdc5471e9a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:09 +0000
Subject: [PATCH 04/31] fix: a nested lookup no longer changes the strategy of
 the outer lookup

---
 session/invocation.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 20d3df0..1e9c0c9 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -384,9 +384,7 @@ func (ic *ivContext) ForConfig() api.Invocation {
 }
 
 func (ic *ivContext) ForData() api.Invocation {
-	if ic.DataMode() {
-		return ic
-	}
+	// Always a copy. A nested lookup must not change the merge strategy and lookup options of the one that it is part of.
 	lic := *ic
 	if !(lic.explainer == nil || !lic.explainer.OnlyOptions()) {
 		lic.explainer = nil
-- 
2.43.0


From 68011fa4cf2f541675882c05491b9d8268bd40a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 05/31] fix: restore the scope of an invocation after a failure

---
 session/invocation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index 1e9c0c9..5742bd5 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -279,9 +279,11 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
 	sc := ic.scope
+	defer func() {
+		ic.scope = sc
+	}()
 	ic.scope = scope
 	doer()
-	ic.scope = sc
 }
 
 func (ic *ivContext) Scope() dgo.Keyed {
-- 
2.43.0


From 716d3a9f28d31cc790853e5eb905ac4342c8d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:14 +0000
Subject: [PATCH 06/31] fix: a data_hash function that does not answer with a
 hash is an error

---
 internal/datahashprovider.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/datahashprovider.go b/internal/datahashprovider.go
index e597774..4078acd 100644
--- a/internal/datahashprovider.go
+++ b/internal/datahashprovider.go
@@ -57,13 +57,15 @@ func (dh *dataHashProvider) loadFunction(ic api.Invocation) hiera.DataHash {
 	}
 
 	if fn, ok := ic.LoadFunction(dh.hierarchyEntry); ok {
-		return func(pc hiera.ProviderContext) (value dgo.Map) {
-			value = vf.Map()
-			v := fn.Call(vf.MutableValues(pc))
-			if dv, ok := v[0].(dgo.Map); ok {
-				value = dv
+		return func(pc hiera.ProviderContext) dgo.Map {
+			v := fn.Call(vf.MutableValues(pc))[0]
+			if v == nil || vf.Nil.Equals(v) {
+				return vf.Map()
 			}
-			return
+			if dv, ok := v.(dgo.Map); ok {
+				return dv
+			}
+			panic(fmt.Errorf(`value returned from data_hash function '%s' is not a hash`, n))
 		}
 	}
 
-- 
2.43.0


From 3952818fac0fcf4d5a3ff6166ec49b29b0cf15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:44 +0000
Subject: [PATCH 07/31] fix: give data_dig functions the provider context with
 their options

---
 internal/datadigprovider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datadigprovider.go b/internal/datadigprovider.go
index 9f621d3..3afce37 100644
--- a/internal/datadigprovider.go
+++ b/internal/datadigprovider.go
@@ -44,7 +44,7 @@ func (dh *dataDigProvider) loadFunction(ic api.Invocation) (pf hiera.DataDig) {
 	he := dh.hierarchyEntry
 	if f, ok := ic.LoadFunction(he); ok {
 		return func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
-			return f.(dgo.Function).Call(vf.Values(ic, key))[0]
+			return f.Call(vf.MutableValues(pc, key))[0]
 		}
 	}
 	ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, he.Function().Name()) })
-- 
2.43.0


From 9aa34c2bffd8d0acbf57161589f7a5bad6cecd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 08/31] fix: the order of glob matches does not depend on
 directory enumeration

---
 config/glob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/glob.go b/config/glob.go
index 7a5ffe3..9ff743a 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"github.com/bmatcuk/doublestar"
 	"github.com/lyraproj/dgo/dgo"
@@ -64,6 +65,8 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(g.Original(), false)
 	rp := filepath.Join(dataDir, r.String())
 	matches, _ := doublestar.Glob(rp)
+	// The order of the matches depends on how the operating system enumerates directories
+	sort.Strings(matches)
 	ls := make([]api.Location, len(matches))
 	for i, m := range matches {
 		ls[i] = &path{g.Original(), m, true}
-- 
2.43.0


From 57c6bbb9d43a0731f37f692ff881b0dabb287d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 09/31] fix: a location that cannot be examined is an error and
 not a missing location

---
 config/glob.go        | 23 +++++++++++++++++++++++
 config/mappedpaths.go |  4 +---
 config/path.go        | 27 +++++++++++++++++++++++++--
 3 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/config/glob.go b/config/glob.go
index 9ff743a..434ed65 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -2,9 +2,11 @@ package config
 
 import (
 	"fmt"
+	"os"
 	"path/filepath"
 	"reflect"
 	"sort"
+	"strings"
 
 	"github.com/bmatcuk/doublestar"
 	"github.com/lyraproj/dgo/dgo"
@@ -64,6 +66,7 @@ func (g glob) Original() string {
 func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(g.Original(), false)
 	rp := filepath.Join(dataDir, r.String())
+	assertListable(rp)
 	matches, _ := doublestar.Glob(rp)
 	// The order of the matches depends on how the operating system enumerates directories
 	sort.Strings(matches)
@@ -74,6 +77,26 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	return ls
 }
 
+// assertListable panics if the directory where the matching of the given pattern starts exists but cannot be listed. The
+// matching itself just ignores such directories.
+func assertListable(pattern string) {
+	dir := pattern
+	for strings.ContainsAny(dir, "*?[{\\") {
+		dir = filepath.Dir(dir)
+	}
+	if dir == pattern || !pathExists(dir) {
+		return
+	}
+	d, err := os.Open(dir)
+	if err == nil {
+		_, err = d.Readdirnames(-1)
+		_ = d.Close()
+	}
+	if !(err == nil || isNotExist(err)) {
+		panic(err)
+	}
+}
+
 func (g glob) Resolved() string {
 	// This should never happen.
 	panic(fmt.Errorf(`resolved requested on a glob`))
diff --git a/config/mappedpaths.go b/config/mappedpaths.go
index bbfbaf6..4d5977c 100644
--- a/config/mappedpaths.go
+++ b/config/mappedpaths.go
@@ -2,7 +2,6 @@ package config
 
 import (
 	"fmt"
-	"os"
 	"path/filepath"
 	"reflect"
 
@@ -104,8 +103,7 @@ func (m *mappedPaths) Resolve(ic api.Invocation, dataDir string) []api.Location
 		ic.DoWithScope(&scopeWithVar{ic.Scope(), vf.String(m.key), mv}, func() {
 			r, _ := ic.InterpolateString(m.template, false)
 			rp := filepath.Join(dataDir, r.String())
-			_, err := os.Stat(rp)
-			paths[i] = &path{m.template, rp, err == nil}
+			paths[i] = &path{m.template, rp, pathExists(rp)}
 		})
 	})
 	return paths
diff --git a/config/path.go b/config/path.go
index 6228055..5bf1278 100644
--- a/config/path.go
+++ b/config/path.go
@@ -1,10 +1,12 @@
 package config
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
 	"reflect"
+	"syscall"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/tf"
@@ -75,8 +77,7 @@ func (p *path) String() string {
 func (p *path) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(p.original, false)
 	rp := filepath.Join(dataDir, r.String())
-	_, err := os.Stat(rp)
-	return []api.Location{&path{p.original, rp, err == nil}}
+	return []api.Location{&path{p.original, rp, pathExists(rp)}}
 }
 
 func (p *path) Original() string {
@@ -86,3 +87,25 @@ func (p *path) Original() string {
 func (p *path) Resolved() string {
 	return p.resolved
 }
+
+// pathExists tells if something exists at the given path. It panics if that cannot be determined.
+func pathExists(path string) bool {
+	_, err := os.Stat(path)
+	if !(err == nil || isNotExist(err)) {
+		panic(err)
+	}
+	return err == nil
+}
+
+// isNotExist returns true if the given error means that there is nothing at the path that it stems from.
+func isNotExist(err error) bool {
+	if os.IsNotExist(err) {
+		return true
+	}
+	var errno syscall.Errno
+	if errors.As(err, &errno) {
+		// A path that has a file where a directory is expected, or that isn't a possible name
+		return errno == syscall.ENOTDIR || errno == syscall.ENAMETOOLONG || errno == syscall.EINVAL
+	}
+	return false
+}
-- 
2.43.0


From c7696c641ec03a029c57cb8f8dc5482c03a8dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:51 +0000
Subject: [PATCH 10/31] fix: concurrent first lookups in modules no longer race

---
 provider/modulelookupkey.go | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 1b9f94a..d684be9 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -26,13 +26,7 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc := pc.(api.ServerContext)
 	if ci := strings.Index(key, `::`); ci > 0 {
 		modName := strings.ToLower(key[:ci])
-		var mp dgo.Function
-		mpm := moduleProviders(sc)
-		if f := mpm.Get(modName); f != nil {
-			mp = f.(dgo.Function)
-		} else {
-			mp = loadModuleProvider(sc.Invocation(), mpm, modName)
-		}
+		mp := moduleProvider(sc.Invocation(), modName)
 		iv := sc.Invocation()
 		return iv.WithModule(modName, func() dgo.Value {
 			if mp == notFoundLookupKeyFunc {
@@ -45,31 +39,30 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	return nil
 }
 
-func moduleProviders(sc api.ServerContext) dgo.Map {
-	var mp dgo.Map
-	if c, ok := sc.CachedValue(`hiera::moduleproviders`); ok {
-		mp = c.(dgo.Map)
-	} else {
-		mp = vf.MutableMap()
-		sc.Cache(`hiera::moduleproviders`, mp)
+const moduleProviderPrefix = `HieraModule:`
+
+// moduleProvider returns the provider for the given module. It is loaded once per session.
+func moduleProvider(ic api.Invocation, moduleName string) dgo.Function {
+	cache := ic.SharedCache()
+	key := moduleProviderPrefix + moduleName
+	mp, ok := cache.Load(key)
+	if !ok {
+		mp, _ = cache.LoadOrStore(key, loadModuleProvider(ic, moduleName))
 	}
-	return mp
+	return mp.(dgo.Function)
 }
 
 var notFoundLookupKeyFunc = vf.Value(func(pc hiera.ProviderContext, key string) dgo.Value { return nil }).(dgo.Function)
 
-func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.Function {
-	var mp dgo.Function = notFoundLookupKeyFunc
+func loadModuleProvider(ic api.Invocation, moduleName string) dgo.Function {
 	if modulePath, ok := ic.SessionOptions().Get(ModulePath).(dgo.String); ok {
 		for _, path := range filepath.SplitList(modulePath.GoString()) {
 			if loaded := loadModule(path, moduleName); loaded != nil {
-				mp = loaded
-				break
+				return loaded
 			}
 		}
 	}
-	mpm.Put(moduleName, mp)
-	return mp
+	return notFoundLookupKeyFunc
 }
 
 func loadModule(path, moduleName string) dgo.Function {
-- 
2.43.0


From 7076425f62352bee10a2d6d0597442ff68983c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 11/31] fix: the module found does not depend on directory
 enumeration

---
 provider/modulelookupkey.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index d684be9..2efc0d1 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -3,6 +3,7 @@ package provider
 import (
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/lyraproj/hiera/config"
@@ -81,23 +82,25 @@ func loadModule(path, moduleName string) dgo.Function {
 		panic(err)
 	}
 
+	// Several names may differ in case only. The order in which the operating system lists them must not matter
+	sort.Slice(fileInfos, func(i, j int) bool { return fileInfos[i].Name() < fileInfos[j].Name() })
 	for _, fi := range fileInfos {
 		if !strings.EqualFold(fi.Name(), moduleName) {
 			continue
 		}
 		if !fi.IsDir() {
-			break
+			continue
 		}
 		configPath := filepath.Join(path, fi.Name(), config.FileName)
 		cf, err := os.Lstat(configPath)
 		if err != nil {
 			if os.IsNotExist(err) {
-				break
+				continue
 			}
 			panic(err)
 		}
 		if cf.IsDir() {
-			break
+			continue
 		}
 		return loadHieraConfig(configPath, moduleName)
 	}
-- 
2.43.0


From f39a490832dddc24d09cdb33ff565bf015b76025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 12/31] fix: storing a value in the provider cache returns the
 value that it replaced

---
 session/serverctx.go | 17 ++++++++++++++---
 session/session.go   | 12 +++++++-----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/session/serverctx.go b/session/serverctx.go
index ab8c1c4..0f1dd78 100644
--- a/session/serverctx.go
+++ b/session/serverctx.go
@@ -1,6 +1,8 @@
 package session
 
 import (
+	"sync"
+
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hierasdk/hiera"
@@ -21,16 +23,25 @@ func (c *serverCtx) Explain(messageProducer func() string) {
 
 func (c *serverCtx) Cache(key string, value dgo.Value) dgo.Value {
 	cache := c.invocation.TopProviderCache()
-	if old, loaded := cache.LoadOrStore(key, value); loaded {
-		// Replace old value
-		cache.Store(key, value)
+	defer c.lockCache()()
+	old, loaded := cache.Load(key)
+	cache.Store(key, value)
+	if loaded {
 		return old.(dgo.Value)
 	}
 	return nil
 }
 
+// lockCache ensures that no one else stores values in the cache until the returned function is called.
+func (c *serverCtx) lockCache() func() {
+	lock := c.invocation.Get(hieraTopProviderCacheLock).(*sync.Mutex)
+	lock.Lock()
+	return lock.Unlock
+}
+
 func (c *serverCtx) CacheAll(hash dgo.Map) {
 	cache := c.invocation.TopProviderCache()
+	defer c.lockCache()()
 	hash.EachEntry(func(e dgo.MapEntry) {
 		cache.Store(e.Key().String(), e.Value())
 	})
diff --git a/session/session.go b/session/session.go
index 2ee9d34..644863b 100644
--- a/session/session.go
+++ b/session/session.go
@@ -38,6 +38,7 @@ const hieraCacheKey = `Hiera::Cache`
 const hieraTopProviderKey = `Hiera::TopProvider`
 const hieraSessionOptionsKey = `Hiera::SessionOptions`
 const hieraTopProviderCacheKey = `Hiera::TopProvider::Cache`
+const hieraTopProviderCacheLock = `Hiera::TopProvider::CacheLock`
 const hieraPluginRegistry = `Hiera::Plugins`
 
 // New creates a new Hiera Session which, among other things, holds on to a synchronized
@@ -90,11 +91,12 @@ func New(parent context.Context, topProvider hiera.LookupKey, oif interface{}, l
 	options.Freeze()
 
 	vars := map[string]interface{}{
-		hieraCacheKey:            &sync.Map{},
-		hieraTopProviderKey:      topProvider,
-		hieraTopProviderCacheKey: &sync.Map{},
-		hieraSessionOptionsKey:   options,
-		hieraPluginRegistry:      &pluginRegistry{}}
+		hieraCacheKey:             &sync.Map{},
+		hieraTopProviderKey:       topProvider,
+		hieraTopProviderCacheKey:  &sync.Map{},
+		hieraSessionOptionsKey:    options,
+		hieraTopProviderCacheLock: &sync.Mutex{},
+		hieraPluginRegistry:       &pluginRegistry{}}
 
 	s := &session{Context: parent, aliasMap: tf.DefaultAliases(), vars: vars, dialect: dialect, scope: scope}
 	s.loader = s.newHieraLoader(ldr)
-- 
2.43.0


From 57254dcf1a9f14a5e83a6dfdd52959588ef73fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 13/31] fix: concurrent lookups can load functions and start
 plugins

---
 session/session.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/session/session.go b/session/session.go
index 644863b..6384da2 100644
--- a/session/session.go
+++ b/session/session.go
@@ -32,8 +32,13 @@ type session struct {
 	vars     map[string]interface{}
 	scope    dgo.Keyed
 	loader   dgo.Loader
+
+	// The loader doesn't permit that namespaces and functions are loaded concurrently
+	functionLock sync.Mutex
+	pluginLock   sync.Mutex
 }
 
+const hieraFunctionPrefix = `HieraFunction:`
 const hieraCacheKey = `Hiera::Cache`
 const hieraTopProviderKey = `Hiera::TopProvider`
 const hieraSessionOptionsKey = `Hiera::SessionOptions`
@@ -158,7 +163,9 @@ func (s *session) Loader() dgo.Loader {
 func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
 	n := he.Function().Name()
 	l := s.Loader()
+	s.functionLock.Lock()
 	fn, ok = l.Namespace(`function`).Get(n).(dgo.Function)
+	s.functionLock.Unlock()
 	if ok {
 		return
 	}
@@ -183,6 +190,15 @@ func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
 		path = abs
 	}
 
+	// What has been loaded is found without waiting for the start of another plugin
+	cache := s.SharedCache()
+	ck := hieraFunctionPrefix + path + `:` + n
+	if lf, found := cache.Load(ck); found {
+		return lf.(dgo.Function), true
+	}
+
+	s.pluginLock.Lock()
+	defer s.pluginLock.Unlock()
 	l = l.Namespace(`plugin`)
 	for _, pn := range strings.Split(path, string(os.PathSeparator)) {
 		l = l.Namespace(pn)
@@ -191,7 +207,9 @@ func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
 		}
 	}
 
-	fn, ok = l.Get(n).(dgo.Function)
+	if fn, ok = l.Get(n).(dgo.Function); ok {
+		cache.Store(ck, fn)
+	}
 	return fn, ok
 }
 
-- 
2.43.0


From ae38aba9b8580ab77d91615efdc3d1e2d690d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:43 +0000
Subject: [PATCH 14/31] fix: close the connection to a plugin after each call

---
 session/pluginloader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 72b724e..45161a1 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -336,6 +336,8 @@ func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
 	client := http.Client{
 		Timeout: time.Second * 5,
 		Transport: &http.Transport{
+			// The transport is used for this call only
+			DisableKeepAlives: true,
 			Dial: func(_, _ string) (net.Conn, error) {
 				return net.Dial(p.network, p.addr)
 			},
-- 
2.43.0


From 587b98ba267603152b86ebe1dbfdc379fb35f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 15/31] fix: log each line from a plugin intact

---
 session/pluginloader.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 45161a1..e8556cc 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -67,17 +67,18 @@ func copyErrToLog(path string, cmdErr io.Reader, wGroup *sync.WaitGroup) {
 	out := log.StandardLogger().Out
 	reader := bufio.NewReaderSize(cmdErr, 0x10000)
 	for {
-		line, pfx, err := reader.ReadLine()
+		line, err := reader.ReadBytes('\n')
+		if len(line) > 0 {
+			// Write each line in one go. Others are writing to the same output
+			line = bytes.TrimSuffix(bytes.TrimSuffix(line, []byte{'\n'}), []byte{'\r'})
+			_, _ = out.Write(append(line, '\n'))
+		}
 		if err != nil {
 			if err != io.EOF {
 				log.Errorf(`error reading stderr of plugin %s: %s`, path, err.Error())
 			}
 			return
 		}
-		_, _ = out.Write(line)
-		if !pfx {
-			_, _ = out.Write([]byte{'\n'})
-		}
 	}
 }
 
-- 
2.43.0


From 9b207d41c5bae2fa5ad0ca4a2639d30ef8e59f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:48 +0000
Subject: [PATCH 16/31] fix: always reap plugin processes and release what is
 left of them

---
 session/pluginloader.go | 74 +++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index e8556cc..1b8c009 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -30,6 +30,7 @@ type plugin struct {
 	lock      sync.Mutex
 	wGroup    sync.WaitGroup
 	process   *os.Process
+	pipes     []io.Closer
 	path      string
 	addr      string
 	network   string
@@ -96,13 +97,7 @@ func awaitMetaData(metaCh chan interface{}, cmdOut io.Reader, wGroup *sync.WaitG
 
 func ignoreOut(cmdOut io.Reader, wGroup *sync.WaitGroup) {
 	defer wGroup.Done()
-	toss := make([]byte, 0x1000)
-	for {
-		_, err := cmdOut.Read(toss)
-		if err == io.EOF {
-			return
-		}
-	}
+	_, _ = io.Copy(ioutil.Discard, cmdOut)
 }
 
 const pluginTransportUnix = "unix"
@@ -153,19 +148,21 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 		panic(fmt.Errorf(`unable to start plugin %s: %s`, path, err.Error()))
 	}
 
+	p := &plugin{path: path, process: cmd.Process, pipes: []io.Closer{cmdErr, cmdOut}}
+
 	// Make sure the plugin process is killed if there is an error
 	defer func() {
 		if r := recover(); r != nil {
 			_ = cmd.Process.Kill()
+			go p.reap()
 			panic(r)
 		}
 	}()
 
-	p := &plugin{path: path, process: cmd.Process}
 	p.wGroup.Add(1)
 	go copyErrToLog(path, cmdErr, &p.wGroup)
 
-	metaCh := make(chan interface{})
+	metaCh := make(chan interface{}, 1)
 	p.wGroup.Add(1)
 	go awaitMetaData(metaCh, cmdOut, &p.wGroup)
 
@@ -190,9 +187,9 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 		r.plugins = make(map[string]*plugin)
 	}
 	p.initialize(meta)
+	fm := p.functionMap()
 	r.plugins[path] = p
-
-	return p.functionMap()
+	return fm
 }
 
 func initCmd(opts dgo.Map, path string) *exec.Cmd {
@@ -207,36 +204,55 @@ func initCmd(opts dgo.Map, path string) *exec.Cmd {
 
 func (p *plugin) kill() {
 	p.lock.Lock()
+	defer p.lock.Unlock()
 	process := p.process
 	if process == nil {
 		return
 	}
+	p.process = nil
 
-	defer func() {
-		p.wGroup.Wait()
-		p.process = nil
-		p.lock.Unlock()
+	done := make(chan struct{})
+	go func() {
+		_, _ = process.Wait()
+		close(done)
 	}()
 
-	graceful := true
 	if err := terminateProc(process); err != nil {
-		graceful = false
+		// Graceful terminate failed. Just kill it!
+		_ = process.Kill()
 	}
-
-	if graceful {
-		done := make(chan bool)
-		go func() {
-			_, _ = process.Wait()
-			done <- true
-		}()
+	select {
+	case <-done:
+	case <-time.After(time.Second * 3):
+		_ = process.Kill()
 		select {
 		case <-done:
-		case <-time.After(time.Second * 3):
-			_ = process.Kill()
+		case <-time.After(time.Second):
 		}
-	} else {
-		// Graceful terminate failed. Just kill it!
-		_ = process.Kill()
+	}
+	p.drain()
+}
+
+// reap waits for a process that has been killed
+func (p *plugin) reap() {
+	_, _ = p.process.Wait()
+	p.drain()
+}
+
+// drain waits for the remaining output from an ended process. A process that the plugin has left behind may hold on to
+// the pipes so the time to wait is limited.
+func (p *plugin) drain() {
+	done := make(chan struct{})
+	go func() {
+		p.wGroup.Wait()
+		close(done)
+	}()
+	select {
+	case <-done:
+	case <-time.After(time.Second):
+	}
+	for _, pipe := range p.pipes {
+		_ = pipe.Close()
 	}
 }
 
-- 
2.43.0


From 1e94b718b1e9aba45205d8955082507589bb454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 17/31] fix: all requests of a server see the variables from
 its standard input

---
 hiera/hiera.go           | 31 +++++++++++++++++++++++++++----
 hieraserver/rest/rest.go |  3 +++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/hiera/hiera.go b/hiera/hiera.go
index d67129d..fcc6d66 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"regexp"
 	"strings"
+	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/streamer"
@@ -54,6 +55,24 @@ type CommandOptions struct {
 	ExplainOptions bool
 
 	LookupAll bool
+
+	// Stdin is an optional function that produces what standard input contains. It must be given when several lookups
+	// share the same input, see StdinReader.
+	Stdin func() ([]byte, error)
+}
+
+// StdinReader returns a function that reads standard input the first time it is called and that gives the outcome of
+// that to all callers.
+func StdinReader() func() ([]byte, error) {
+	var once sync.Once
+	var bs []byte
+	var err error
+	return func() ([]byte, error) {
+		once.Do(func() {
+			bs, err = ioutil.ReadAll(os.Stdin)
+		})
+		return bs, err
+	}
 }
 
 // Lookup performs a lookup using the given parameters.
@@ -300,22 +319,26 @@ func createScope(c api.Session, opts *CommandOptions) dgo.Map {
 		}
 	}
 
-	addVarPaths(opts.VarPaths, scope)
+	stdin := opts.Stdin
+	if stdin == nil {
+		stdin = StdinReader()
+	}
+	addVarPaths(opts.VarPaths, stdin, scope)
 	if len(opts.FactPaths) > 0 {
 		facts := vf.MutableMap()
-		addVarPaths(opts.FactPaths, facts)
+		addVarPaths(opts.FactPaths, stdin, facts)
 		scope.PutAll(facts)
 		scope.Put(`facts`, facts)
 	}
 	return scope
 }
 
-func addVarPaths(varPaths []string, m dgo.Map) {
+func addVarPaths(varPaths []string, stdin func() ([]byte, error), m dgo.Map) {
 	for _, vars := range varPaths {
 		var bs []byte
 		var err error
 		if vars == `-` {
-			bs, err = ioutil.ReadAll(os.Stdin)
+			bs, err = stdin()
 		} else {
 			bs, err = ioutil.ReadFile(vars)
 		}
diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index b3710df..a624512 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -104,6 +104,8 @@ func startServer(_ *cobra.Command, _ []string) {
 
 // CreateRouter creates the http.Handler for the Hiera RESTful service
 func CreateRouter(ctx api.Session) http.Handler {
+	// Standard input can be read only once but its variables are for all requests
+	stdin := hiera.StdinReader()
 	doLookup := func(w http.ResponseWriter, r *http.Request) {
 		ks := keyPattern.FindStringSubmatch(r.URL.Path)
 		if ks == nil {
@@ -127,6 +129,7 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}()
 
 		opts := cmdOpts
+		opts.Stdin = stdin
 		params := r.URL.Query()
 		if dflt, ok := params[`default`]; ok && len(dflt) > 0 {
 			opts.Default = &dflt[0]
-- 
2.43.0


From c61ea0ee389e5a8564805c423ca14932e926d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:05 +0000
Subject: [PATCH 18/31] fix: a plugin answer that is not exactly one JSON value
 is an error

---
 session/pluginloader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 1b8c009..7f98c98 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -372,7 +372,11 @@ func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
 	case http.StatusOK:
 		var bts []byte
 		if bts, err = ioutil.ReadAll(resp.Body); err == nil {
-			return streamer.UnmarshalJSON(bts, nil)
+			// The unmarshaller reads one value and ignores what follows it
+			if json.Valid(bts) {
+				return streamer.UnmarshalJSON(bts, nil)
+			}
+			err = fmt.Errorf(`%s: the answer is not valid JSON`, us)
 		}
 	case http.StatusNotFound:
 		return nil
-- 
2.43.0


From 3c677209f0cbdeab161c2644aa11e6e06def0c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:05 +0000
Subject: [PATCH 19/31] fix: render values that are types completely

---
 hiera/render.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiera/render.go b/hiera/render.go
index fba22f7..5dca80f 100644
--- a/hiera/render.go
+++ b/hiera/render.go
@@ -33,7 +33,8 @@ func Render(s api.Session, renderAs RenderName, value dgo.Value, out io.Writer)
 	dedupStream := func(value dgo.Value, consumer streamer.Consumer) {
 		opts := streamer.DefaultOptions()
 		opts.DedupLevel = streamer.NoDedup
-		ser := streamer.New(s.AliasMap(), opts)
+		// With a map of aliases the streamer omits the types that are not in it
+		ser := streamer.New(nil, opts)
 		ser.Stream(value, consumer)
 	}
 
-- 
2.43.0


From 386fc53420748aba9155858b56d4ad5c00dfd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:05 +0000
Subject: [PATCH 20/31] fix: limit the length of types and values that are
 parsed recursively

---
 hiera/hiera.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hiera/hiera.go b/hiera/hiera.go
index fcc6d66..f98196d 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -227,6 +227,10 @@ func DoWithParent(parent context.Context, tp hiera.LookupKey, options interface{
 var varSplit = regexp.MustCompile(`\A(.*?[^:=])[:=]([^:=].*)\z`)
 var needParsePrefix = []string{`{`, `[`, `"`, `'`}
 
+// maxParseLength is the maximum length of a type or value that must be parsed. The parsers are recursive so unlimited
+// nesting would exhaust the stack, and that ends the process.
+const maxParseLength = 0x10000
+
 // LookupAndRender performs a lookup using the given command options and arguments and renders the result on the given
 // io.Writer in accordance with the `RenderAs` option.
 func LookupAndRender(c api.Session, opts *CommandOptions, args []string, out io.Writer) bool {
@@ -287,15 +291,23 @@ func LookupAndRender(c api.Session, opts *CommandOptions, args []string, out io.
 func parseType(t string, dl streamer.Dialect) dgo.Type {
 	tp := typ.Any
 	if t != `` {
+		assertParseLength(t)
 		tp = dl.ParseType(nil, vf.String(t))
 	}
 	return tp
 }
 
+func assertParseLength(s string) {
+	if len(s) > maxParseLength {
+		panic(fmt.Errorf(`unable to parse '%.20s...': the length %d exceeds the maximum %d`, s, len(s), maxParseLength))
+	}
+}
+
 func parseCommandLineValue(c api.Session, vs string) dgo.Value {
 	vs = strings.TrimSpace(vs)
 	for _, pfx := range needParsePrefix {
 		if strings.HasPrefix(vs, pfx) {
+			assertParseLength(vs)
 			var v dgo.Value
 			c.AliasMap().Collect(func(aa dgo.AliasAdder) {
 				v = typ.ExactValue(c.Dialect().ParseType(aa, vf.String(vs)))
-- 
2.43.0


From dc6d367652bc0590553c58876bd15924efe75876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:08 +0000
Subject: [PATCH 21/31] fix: keys in REST requests can contain line breaks

---
 hieraserver/rest/rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index a624512..bfdcd46 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -70,7 +70,7 @@ func newCommand() *cobra.Command {
 	return cmd
 }
 
-var keyPattern = regexp.MustCompile(`^/lookup/(.*)$`)
+var keyPattern = regexp.MustCompile(`(?s)^/lookup/(.*)$`)
 
 func startServer(_ *cobra.Command, _ []string) {
 	configOptions := map[string]interface{}{
-- 
2.43.0


From 8fc8079cf6620a93d0ff941efc13663a867b6057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:51 +0000
Subject: [PATCH 22/31] fix: values that are converted to Sensitive are shown
 in explanations

The invocation keeps track of that a sensitive value is being looked up but nothing made use of it, so the values, merge
results, and interpolated expressions that a sensitive value is obtained from were included in the explanation.
---
 session/invocation.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 5742bd5..0c2383a 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -175,7 +175,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 	convertToType, convertToArgs := ic.extractConversion()
 
 	var v dgo.Value
-	if typ.Sensitive.Equals(convertToType) {
+	if convertToType != nil && typ.Sensitive.Assignable(convertToType) {
 		ic.DoRedacted(func() { v = fn() })
 	} else {
 		v = fn()
@@ -277,6 +277,14 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 	}
 }
 
+// redact hides a value that is, or will become part of, a sensitive value
+func (ic *ivContext) redact(value dgo.Value) dgo.Value {
+	if ic.redacted && value != nil {
+		return vf.String(vf.Sensitive(value).String())
+	}
+	return value
+}
+
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
 	sc := ic.scope
 	defer func() {
@@ -308,6 +316,9 @@ func (ic *ivContext) WithInterpolation(expr string, producer dgo.Producer) dgo.V
 	if ic.explainer == nil {
 		return producer()
 	}
+	if ic.redacted {
+		expr = ic.redact(vf.String(expr)).String()
+	}
 	defer ic.explainer.Pop()
 	ic.explainer.PushInterpolation(expr)
 	return producer()
@@ -423,13 +434,13 @@ func (ic *ivContext) ReportLocationNotFound() {
 
 func (ic *ivContext) ReportFound(key interface{}, value dgo.Value) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptFound(key, value)
+		ic.explainer.AcceptFound(key, ic.redact(value))
 	}
 }
 
 func (ic *ivContext) ReportMergeResult(value dgo.Value) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptMergeResult(value)
+		ic.explainer.AcceptMergeResult(ic.redact(value))
 	}
 }
 
-- 
2.43.0


From 606bd4c5909d202850313a5f2d63b3143ac482a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:00 +0000
Subject: [PATCH 23/31] fix: an absolute path in HIERA_CONFIGFILE names the
 configuration, as with --config

---
 session/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/session.go b/session/session.go
index 6384da2..2bd4626 100644
--- a/session/session.go
+++ b/session/session.go
@@ -123,6 +123,11 @@ func addHieraConfig(options dgo.Map) {
 	if r := options.Get(api.HieraConfigFileName); r != nil {
 		fileName = r.String()
 	} else if configFile, ok := os.LookupEnv("HIERA_CONFIGFILE"); ok {
+		if filepath.IsAbs(configFile) {
+			// Same meaning as the command line option --config
+			options.Put(api.HieraConfig, configFile)
+			return
+		}
 		fileName = configFile
 	} else {
 		fileName = config.FileName
-- 
2.43.0


From ffb4eb2dd6c783435b786c90511c1a45e1a82f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:51 +0000
Subject: [PATCH 24/31] fix: plugin functions of different kinds can have the
 same name

A plugin can offer functions with the same name under different kinds. The one that happened to come last in the random
order of a map was used for all of them, so that calls failed because of the wrong number or type of arguments.
---
 session/pluginloader.go | 8 +++++++-
 session/session.go      | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 7f98c98..c6b7de0 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -130,6 +130,11 @@ func getPluginTransport(opts dgo.Map) string {
 	return getDefaultPluginTransport()
 }
 
+// functionKey is the name that a plugin function has in a loader. Functions of different kinds can have the same name.
+func functionKey(kind, name string) string {
+	return kind + `:` + name
+}
+
 // startPlugin will start the plugin loaded from the given path and register the functions that it makes available
 // with the given loader.
 func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
@@ -290,11 +295,12 @@ func (p *plugin) functionMap() dgo.Value {
 		case `data_hash`:
 			df = p.dataHashDispatch
 		default:
+			k = `lookup_key`
 			df = p.lookupKeyDispatch
 		}
 		for _, x := range names {
 			n := x.(string)
-			m.Put(n, df(n))
+			m.Put(functionKey(k, n), df(n))
 		}
 	}
 	return loader.Multiple(m)
diff --git a/session/session.go b/session/session.go
index 2bd4626..5a79918 100644
--- a/session/session.go
+++ b/session/session.go
@@ -197,7 +197,8 @@ func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
 
 	// What has been loaded is found without waiting for the start of another plugin
 	cache := s.SharedCache()
-	ck := hieraFunctionPrefix + path + `:` + n
+	fk := functionKey(string(he.Function().Kind()), n)
+	ck := hieraFunctionPrefix + path + `:` + fk
 	if lf, found := cache.Load(ck); found {
 		return lf.(dgo.Function), true
 	}
@@ -212,7 +213,7 @@ func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
 		}
 	}
 
-	if fn, ok = l.Get(n).(dgo.Function); ok {
+	if fn, ok = l.Get(fk).(dgo.Function); ok {
 		cache.Store(ck, fn)
 	}
 	return fn, ok
-- 
2.43.0


From 8ee606a7b32b90c349dd05a958046019d6eee326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:29 +0000
Subject: [PATCH 25/31] fix: escape the names of plugin functions in URLs

A function name with a character that has a meaning in a URL made the plugin get a call of another function, or of none,
which it answered with not found.
---
 session/pluginloader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index c6b7de0..797415f 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -344,6 +344,7 @@ func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
 	var ad *url.URL
 	var err error
 
+	name = url.PathEscape(name)
 	if p.network == pluginTransportUnix {
 		ad, err = url.Parse(fmt.Sprintf(`http://%s/%s/%s`, p.network, luType, name))
 	} else {
-- 
2.43.0


From 1889cc44e68e710bf2f64babc4b2426d40c46d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:44 +0000
Subject: [PATCH 26/31] fix: pass the arguments of convert_to to the type

A convert_to with arguments, e.g. ['int', 16], always failed because the value and the
arguments were wrapped in one array.
---
 session/invocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index 0c2383a..62e5acf 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -183,7 +183,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 
 	if v != nil && convertToType != nil {
 		if convertToArgs != nil {
-			v = vf.Arguments(vf.Values(v).WithAll(convertToArgs))
+			v = vf.ArgumentsFromArray(vf.Values(v).WithAll(convertToArgs))
 		}
 		v = vf.New(convertToType, v)
 	}
-- 
2.43.0


From 4aeb2cc3bfe372e23c4580bffa49994751b1cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:33 +0000
Subject: [PATCH 27/31] fix: report directories below that of a glob that
 cannot be listed

---
 config/glob.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/config/glob.go b/config/glob.go
index 434ed65..fb58584 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -77,20 +77,33 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	return ls
 }
 
-// assertListable panics if the directory where the matching of the given pattern starts exists but cannot be listed. The
-// matching itself just ignores such directories.
+// assertListable panics if one of the directories that the matching of the given pattern must list exists but cannot be
+// listed. The matching itself just ignores such directories.
 func assertListable(pattern string) {
-	dir := pattern
-	for strings.ContainsAny(dir, "*?[{\\") {
-		dir = filepath.Dir(dir)
-	}
-	if dir == pattern || !pathExists(dir) {
+	pattern = filepath.ToSlash(pattern)
+	meta := strings.IndexAny(pattern, "*?[{\\")
+	if meta < 0 {
 		return
 	}
-	d, err := os.Open(dir)
-	if err == nil {
-		_, err = d.Readdirnames(-1)
-		_ = d.Close()
+	assertDirListable(filepath.Dir(pattern[:meta]))
+	for i := meta; i < len(pattern); i++ {
+		if pattern[i] == '/' {
+			dirs, _ := doublestar.Glob(pattern[:i])
+			for _, dir := range dirs {
+				assertDirListable(dir)
+			}
+		}
+	}
+}
+
+func assertDirListable(path string) {
+	fi, err := os.Stat(path)
+	if err == nil && fi.IsDir() {
+		var d *os.File
+		if d, err = os.Open(path); err == nil {
+			_, err = d.Readdir(-1)
+			_ = d.Close()
+		}
 	}
 	if !(err == nil || isNotExist(err)) {
 		panic(err)
-- 
2.43.0


From 18637ec9ef1fbd304cb4ec4250266ab68691d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:49 +0000
Subject: [PATCH 28/31] fix: a key whose first segment is quoted must not be
 parsed again without the quotes

---
 api/key.go                  | 15 +++++++++++++++
 provider/configlookupkey.go |  2 +-
 provider/muxlookupkey.go    |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/api/key.go b/api/key.go
index 5104384..57baef1 100644
--- a/api/key.go
+++ b/api/key.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/tf"
@@ -48,6 +49,20 @@ func NewKey(str string) Key {
 	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
 }
 
+// NewRootKey returns a Key that has the given string as its only part. The string is not parsed so it can contain dots,
+// quotes, or what otherwise would be an index.
+func NewRootKey(root string) Key {
+	source := root
+	if _, err := strconv.ParseInt(root, 10, 32); err == nil || strings.ContainsAny(root, `.'"`) {
+		q := `'`
+		if strings.Contains(root, q) {
+			q = `"`
+		}
+		source = q + root + q
+	}
+	return &key{source, []interface{}{root}}
+}
+
 var keyType = tf.NewNamed(`hiera.key`,
 	func(v dgo.Value) dgo.Value {
 		return NewKey(v.String())
diff --git a/provider/configlookupkey.go b/provider/configlookupkey.go
index 21139f2..d2abd51 100644
--- a/provider/configlookupkey.go
+++ b/provider/configlookupkey.go
@@ -20,7 +20,7 @@ func ConfigLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 func ConfigLookupKeyAt(sc api.ServerContext, configPath, key, moduleName string) dgo.Value {
 	ic := sc.Invocation()
 	cfg := ic.Config(configPath, moduleName)
-	k := api.NewKey(key)
+	k := api.NewRootKey(key)
 	if ic.LookupOptionsMode() {
 		return cfg.LookupOptions(k)
 	}
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 02995bf..61bf7c3 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -43,7 +43,7 @@ func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc = sc.ForData()
 	args.Set(0, sc)
 	ic = sc.Invocation()
-	return ic.WithLookup(api.NewKey(key), func() dgo.Value {
+	return ic.WithLookup(api.NewRootKey(key), func() dgo.Value {
 		ic.SetMergeStrategy(sc.Option(`merge`), luOpts)
 		return ic.LookupAndConvertData(func() dgo.Value {
 			return ic.MergeStrategy().MergeLookup(spv, ic, luFunc)
-- 
2.43.0


From 3b377e22e7f55dac2f2c2a0f383ae17d0ae21eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:49 +0000
Subject: [PATCH 29/31] fix: a quoted segment of a key is never an index

---
 api/key.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/api/key.go b/api/key.go
index 57baef1..7b31e71 100644
--- a/api/key.go
+++ b/api/key.go
@@ -46,7 +46,7 @@ type (
 // NewKey parses the given string into a Key
 func NewKey(str string) Key {
 	b := bytes.NewBufferString(``)
-	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
+	return &key{str, parseUnquoted(b, str, str, []interface{}{}, false)}
 }
 
 // NewRootKey returns a Key that has the given string as its only part. The string is not parsed so it can contain dots,
@@ -160,8 +160,13 @@ func (k *key) String() string {
 	return k.Type().(dgo.NamedType).ValueString(k)
 }
 
-func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []interface{} {
+// parseUnquoted parses the given part of the key. The quoted flag is true if the segment that the buffer contains the
+// beginning of is quoted. Such a segment is never an index and can be empty.
+func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}, quoted bool) []interface{} {
 	mungedPart := func(ix int, part string) interface{} {
+		if quoted {
+			return part
+		}
 		if i, err := strconv.ParseInt(part, 10, 32); err == nil {
 			if ix == 0 {
 				panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
@@ -181,6 +186,7 @@ func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []int
 		case '.':
 			parts = append(parts, mungedPart(len(parts), b.String()))
 			b.Reset()
+			quoted = false
 		default:
 			_, _ = b.WriteRune(c)
 		}
@@ -194,7 +200,7 @@ func parseQuoted(b *bytes.Buffer, q rune, key, part string, parts []interface{})
 			if i == len(part)-1 {
 				return append(parts, b.String())
 			}
-			return parseUnquoted(b, key, part[i+1:], parts)
+			return parseUnquoted(b, key, part[i+1:], parts, true)
 		}
 		_, _ = b.WriteRune(c)
 	}
-- 
2.43.0


From 51e9b9ab0e19fc322de45c08da1e989a9a04b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:55 +0000
Subject: [PATCH 30/31] fix: refuse JSON data files with content after the JSON
 value

---
 provider/jsondata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/provider/jsondata.go b/provider/jsondata.go
index 74e1cee..5a6887a 100644
--- a/provider/jsondata.go
+++ b/provider/jsondata.go
@@ -1,6 +1,8 @@
 package provider
 
 import (
+	"encoding/json"
+	"fmt"
 	"io/ioutil"
 	"os"
 
@@ -25,6 +27,10 @@ func JSONData(ctx hiera.ProviderContext) dgo.Map {
 		}
 		panic(err)
 	}
+	if !json.Valid(bs) {
+		// the streamer stops at the end of the first value and would ignore what follows
+		panic(fmt.Errorf("could not unmarshal %s: not a valid JSON document", path))
+	}
 	v := streamer.UnmarshalJSON(bs, nil)
 	if data, ok := v.(dgo.Map); ok {
 		return data
-- 
2.43.0


From 11de13f70c028fe75c1b3a89b600db1bba841c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:55 +0000
Subject: [PATCH 31/31] fix: yaml2json must not ignore what follows the first
 document

---
 yaml2json/main.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/yaml2json/main.go b/yaml2json/main.go
index a8c625e..9cce041 100644
--- a/yaml2json/main.go
+++ b/yaml2json/main.go
@@ -2,7 +2,10 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
+	"errors"
+	"io"
 	"io/ioutil"
 	"log"
 	"os"
@@ -26,8 +29,27 @@ func stringKeys(x interface{}) interface{} {
 	return x
 }
 
+// oneDocument checks that the given data doesn't go on after the first YAML document, which is all that
+// yaml.Unmarshal reads.
+func oneDocument(data []byte) (err error) {
+	var n yaml.Node
+	d := yaml.NewDecoder(bytes.NewReader(data))
+	if err = d.Decode(&n); err == nil {
+		if err = d.Decode(&n); err == nil {
+			return errors.New(`the input has more than one document`)
+		}
+	}
+	if err == io.EOF {
+		err = nil
+	}
+	return
+}
+
 func main() {
 	data, err := ioutil.ReadAll(os.Stdin)
+	if err == nil {
+		err = oneDocument(data)
+	}
 	if err == nil {
 		var body interface{}
 		if err = yaml.Unmarshal(data, &body); err == nil {
-- 
2.43.0

