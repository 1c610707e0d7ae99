From fe00c0ab90c5fb80d73f6e201a341f66ba13f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 01/64] fix: DAG.remove_in_edges removed the edges in the wrong
 direction

Redefining a variable which already had parents raised NetworkXError.
---
 src/sims_pars/bayesnet/dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index a671f0a..c3a3480 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -110,7 +110,7 @@ class DAG(nx.DiGraph):
         :param node: targeted node
         """
         for par in self.parents(node):
-            self.remove_edge(node, par)
+            self.remove_edge(par, node)
 
     def remove_upstream(self, nodes):
         if not isinstance(nodes, list):
-- 
2.43.0


From d248f18f82db59be59c8589fb749ef62ce4ea5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 02/64] fix: minimal_requirements dropped direct requirements
 of the target

An ancestor of a conditioned node was discarded even when the target also
depends on it through a path avoiding the conditioned nodes.
---
 src/sims_pars/bayesnet/dag.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index c3a3480..a4ce83e 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -159,11 +159,18 @@ def minimal_dag(g, nodes):
 
 
 def minimal_requirements(g, target, cond):
-    anc = set(g.ancestors(target))
+    cond = set(cond)
+    anc = set()
+    to_visit = list(g.parents(target))
 
-    for s in cond:
+    # trace back from the target, and stop at the conditioned nodes
+    while to_visit:
+        s = to_visit.pop()
         if s in anc:
-            anc.difference_update(g.ancestors(s))
+            continue
+        anc.add(s)
+        if s not in cond:
+            to_visit.extend(g.parents(s))
 
     return g.sort(anc)
 
-- 
2.43.0


From 3e6ca4b48e841f382ca12912cde07ea409b9cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 03/64] fix: generate dropped fixed nodes whose parents live in
 ancestor groups

---
 src/sims_pars/simulation/simugroup.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index d843ba8..6e5fcff 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -30,18 +30,17 @@ class SimulationGroup:
         :return:
         """
         exo = dict(exo) if exo else dict()
-        vs = dict(exo)
-        for d in self.Exogenous:
+        # start from the values visible in the parent
+        vs = dict(iter(parent)) if parent is not None else dict()
+        vs.update(exo)
+        for d in self.BN.sort(self.Exogenous):
             if d not in vs:
-                try:
-                    vs[d] = parent[d]
-                except (TypeError, KeyError):
-                    vs[d] = self.BN[d].fill(vs)
+                self.BN[d].fill(vs)
 
         prior = 0
         for d in self.Fixed:
             loci = self.BN[d]
-            if d not in vs:
+            if d not in exo:
                 try:
                     loci.fill(vs)
                 except KeyError:
-- 
2.43.0


From 2541a84f2fc992b30c4695e2cb0cf4a2020e366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 04/64] fix: NodeSet redrew or lost nodes fixed with the
 ancestors of fixed nodes

Random mediators of fixed nodes are fixed with them, a nodes fixed in an
ancestor group (including those resolved later) are not drawn again in its
children, and siblings no longer share one set of inherited nodes.
---
 src/sims_pars/simulation/nodeset.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index fcfc6dc..81d9bdc 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -140,13 +140,16 @@ class NodeSet:
 
         # pass down fixed
         if self.__parent:
-            self.__was_fixed = fixed if fixed else set()
+            self.__was_fixed = set(fixed) if fixed else set()
         else:
             self.__was_fixed = set()
         all_fixed = set.union(self.__was_fixed, self.FixedNodes)
 
+        # mediators supporting the fixed nodes have to be fixed with them
+        supports = g.upstream(self.__as_fixed) if self.__as_fixed else set()
+
         for d in med:
-            if bn.has_randomness(d, all_fixed):
+            if d not in supports and bn.has_randomness(d, all_fixed):
                 self.FloatingNodes.add(d)
             else:
                 self.FixedNodes.add(d)
@@ -172,7 +175,7 @@ class NodeSet:
 
         for i, node in enumerate(mini):
             par = mini[:i]
-            rq = dag.minimal_requirements(g, node, par)
+            rq = dag.minimal_requirements(g, node, self.__was_fixed.union(par))
 
             if node in self.FloatingNodes:
                 self.ListeningNodes.update(rq)
@@ -226,6 +229,8 @@ class NodeSet:
         self.ListeningNodes.difference_update(self.FloatingNodes)
 
         for ch in self.__children.values():
+            # including the nodes fixed in this step
+            ch.__was_fixed.update(self.__was_fixed, self.FixedNodes)
             ch._resolve_relations(bn)
 
     def _claim_used_nodes(self):
-- 
2.43.0


From 31e61491ff50e825494c644bdf7211fcf909f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 05/64] fix: a rejected cyclic definition damaged the existing
 network

---
 src/sims_pars/bayesnet/bn.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 124f6dd..f4a70a5 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -72,23 +72,19 @@ class BayesianNetwork:
         #     if not isinstance(self.DAG.nodes[name]['loci'], ExoValueLoci):
         #         raise KeyError('Duplicated variable name')
 
+        # Check acyclic or not, before any change
+        below = self.DAG.descendants(name) if name in self.DAG else set()
+        if any(pa == name or pa in below for pa in loci.Parents):
+            raise AttributeError('The node causes cyclic paths')
+
         self.DAG.add_node(name, loci=loci, **kwargs)
         self.DAG.remove_in_edges(name)
 
-        new_pa = list()
         for pa in loci.Parents:
             if pa not in self.DAG:
                 self.append_loci(ExoValueLoci(pa))
-                new_pa.append(pa)
             self.DAG.add_edge(pa, name)
 
-        # Check acyclic or not
-        if not self.DAG.check_acyclic():
-            self.DAG.remove_node(name)
-            for pa in new_pa:
-                self.DAG.remove_node(pa)
-            raise AttributeError('The node causes cyclic paths')
-
     def append_from_js(self, js):
         loci = loci_from_json(js)
         if 'Des' in js:
-- 
2.43.0


From 4beaa3c4b7bef08c1ab6b1c35b9d2a88693d69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 06/64] fix: bayes_net_from_json and BayesianNetwork.clone
 crashed, descriptions were lost

---
 src/sims_pars/bayesnet/bn.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index f4a70a5..cfd4727 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -28,7 +28,12 @@ def find_exo(bn):
 
 
 def form_js(bn):
-    nodes = [bn.DAG.nodes[node]['loci'].to_json() for node in bn.DAG.nodes()]
+    nodes = list()
+    for node, dat in bn.DAG.nodes.data():
+        js = dat['loci'].to_json()
+        if 'Des' in dat:
+            js['Des'] = dat['Des']
+        nodes.append(js)
     return {
         'Name': bn.Name,
         'Nodes': nodes,
@@ -316,11 +321,5 @@ def bayes_net_from_json(js):
 
     for node in js['Nodes']:
         bn.append_from_js(node)
-    nx.freeze(bn)
-    bn.json = js
-    bn.__order = js['Order']
-    bn.__roots = js['Roots']
-    bn.__rv_roots = js['RVRoots']
-    bn.__leaves = js['Leaves']
-    bn.__exo = js['Exo']
+    bn.complete()
     return bn
-- 
2.43.0


From c99df1edc5f5631ab2795f81fa4258aa91a9774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 07/64] fix: scripts with tabs, comment lines or empty
 descriptions crashed the parser

---
 src/sims_pars/bayesnet/bn.py   |  2 +-
 src/sims_pars/bayesnet/loci.py | 10 +++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index cfd4727..f65fc4a 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -293,7 +293,7 @@ def bayes_net_from_script(script):
     :return: BayesianNetwork
     """
     lines = script.split('\n')
-    lines = [line.replace(' ', '') for line in lines]
+    lines = [re.sub(r'\s+', '', line) for line in lines]
     for line in lines:
         mat = re.match(r'pcore(\w+){', line, re.I)
         if mat:
diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 8e92d90..24972fb 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -245,14 +245,10 @@ def loci_from_json(js):
 
 
 def parse_loci(df):
-    df = df.replace(' ', '')
+    df = re.sub(r'\s+', '', df)
+    df, _, des = df.partition('#')
 
-    if '#' in df:
-        df, des = re.match(r'\A(\S+)#(\S+)', df).groups()
-    else:
-        des = ''
-
-    if '~' in df:
+    if re.match(r'\A\w+~\S+', df):
         name, loci = re.match(r'\A(\w+)~(\S+)', df).groups()
         loci = DistributionLoci(name, loci)
     elif re.match(r'\A\w+=\S+', df):
-- 
2.43.0


From d19ea73d9f57f19407b699ea612a35475b1b2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 08/64] fix: merge lost the children of the redefined nodes

---
 src/sims_pars/bayesnet/bn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index f65fc4a..e54c3ac 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -237,11 +237,11 @@ class BayesianNetwork:
 
         bn = self.copy(name)
         bn.defrost()
-        for node in sub_bn.Order:
-            if sub_bn.is_exogenous(node):
-                continue
+        nodes = [node for node in sub_bn.Order if not sub_bn.is_exogenous(node)]
+        for node in nodes:
             if node in bn:
-                bn.DAG.remove_node(node)
+                bn.DAG.remove_in_edges(node)
+        for node in nodes:
             bn.append_from_js(sub_bn[node].to_json())
 
         bn.__check_edges()
-- 
2.43.0


From 24a3ea28f8661b1532ca309ee412995f4002cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 09/64] fix: extend turned every variable into an exogenous one

---
 src/sims_pars/bayesnet/bn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index e54c3ac..c130004 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -258,8 +258,10 @@ class BayesianNetwork:
             ext = list(new_bn.Order)
 
         for node in self.Order:
+            if self.is_exogenous(node) and node in ext:
+                continue
             if override or node not in ext:
-                new_bn.append_from_definition(node)
+                new_bn.append_from_js(self[node].to_json())
 
         new_bn.complete()
         return new_bn
-- 
2.43.0


From 9b360c490820f716262ea265dac0dc41d098b0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 10/64] fix: Const.logpdf was +inf for the values out of its
 support

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index a87605c..44591a2 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -163,7 +163,7 @@ class Const(AbsDistribution):
         return self.K
 
     def logpdf(self, v):
-        return 0 if v == self.K else float('inf')
+        return 0 if v == self.K else - float('inf')
 
     def mean(self):
         return self.K
-- 
2.43.0


From 9af2076bed4f9b92c98dc3161b8668af9567daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 11/64] fix: CategoricalRV.logpdf used unnormalised weights

---
 src/sims_pars/prob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 44591a2..fc13885 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -201,10 +201,11 @@ class CategoricalRV(AbsDistribution):
         return 'Category'
 
     def logpdf(self, v):
+        prob = dict(zip(self.cat, self.p))
         try:
-            return np.array([x*np.log(self.kv[k]) for k, x in v.items()]).sum()
+            return np.array([x*np.log(prob[k]) for k, x in v.items()]).sum()
         except AttributeError:
-            return np.log(self.kv[v])
+            return np.log(prob[v])
 
     def sample(self, n=1, **kwargs):
         sam = rd.choice(self.cat, n, p=self.p)
-- 
2.43.0


From a6d83052efedc395ae111b133f169326fb7abc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 12/64] fix: repr of a distribution without source raised
 TypeError

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index fc13885..6c5db08 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -70,7 +70,7 @@ class AbsDistribution(metaclass=ABCMeta):
         if self.source:
             return repr(self.source)
         else:
-            return id(self)
+            return object.__repr__(self)
 
     __str__ = __repr__
 
-- 
2.43.0


From 29c54fbc1df65a282f448946dff1a1be83cadc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 13/64] fix: Atelier lost the quotes of string arguments

---
 src/sims_pars/factory/craftstation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index ed63a0f..46c33f5 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -30,7 +30,7 @@ class Atelier:
         tp = inputs.func.id
         req = self.Creators[tp].schema()['properties']
 
-        args = [arg.value if isinstance(arg, ast.Constant) else ast.unparse(arg) for arg in inputs.args]
+        args = [ast.unparse(arg) for arg in inputs.args]
 
         named = [arg.arg for arg in inputs.keywords]
         unnamed = {k: v for k, v in req.items() if k not in named}
@@ -47,7 +47,7 @@ class Atelier:
             try:
                 v = args[i]
             except IndexError:
-                v = v['default']
+                v = repr(v['default'])
             temp.append(f'{k}={v}')
 
         unnamed = f'({", ".join(temp)}'
-- 
2.43.0


From a720beca2462ac4590beda5b05569830690def5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 14/64] fix: Atelier registered __builtins__ as a product when
 evaluating

---
 src/sims_pars/factory/craftstation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index 46c33f5..bd10b5d 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -58,7 +58,7 @@ class Atelier:
     def get_blueprint(self, seq, loc=None, to_complete=True):
         if to_complete:
             seq = self.complete_def(seq)
-        return eval(seq, self.Creators, loc)
+        return eval(seq, dict(self.Creators), loc)
 
     def create(self, seq, loc=None, append_src=False, to_complete=True):
         bp = self.get_blueprint(seq, loc=loc, to_complete=to_complete)
-- 
2.43.0


From b76fd8f743f097d27f98330b8d0dbbc5245cc3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 15/64] fix: Parents of a function without arguments raised
 TypeError

---
 src/sims_pars/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index 4d08de6..a83e4db 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -189,7 +189,7 @@ class ParsedFunction:
 
     @property
     def Parents(self):
-        return set.union(*[arg['value'].Var for arg in self.Arguments])
+        return set().union(*[arg['value'].Var for arg in self.Arguments])
 
     def to_json(self, loc=None):
         return {
-- 
2.43.0


From 31fa0c372597221caab155146404c6f7fad2f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 16/64] fix: resample(log=False) raised TypeError

---
 src/sims_pars/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index a83e4db..2de70a3 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -98,7 +98,7 @@ def resample(wts, hs, pars=None, log=True, new_size=None):
         sel = choice(size, new_size, replace=True, p=np.exp(wts))
     else:
         lse = np.sum(wts)
-        wts /= lse
+        wts = np.array(wts) / lse
         lse = np.log(lse)
         sel = choice(size, new_size, replace=True, p=wts)
     if pars:
-- 
2.43.0


From 4b04b5e176ced43549547239f769c953c4175f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 17/64] fix: empty sets of nodes raised TypeError in graph
 queries and impulse

---
 src/sims_pars/bayesnet/chromosome.py | 2 +-
 src/sims_pars/bayesnet/dag.py        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index fa9450a..01dc9e0 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -44,7 +44,7 @@ class Chromosome:
         if bn:
             g = bn.DAG
             imp = {k: v for k, v in new_locus.items() if k in self}
-            shocked = set.union(*[set(nx.descendants(g, k)) for k in imp.keys()])
+            shocked = set().union(*[set(nx.descendants(g, k)) for k in imp.keys()])
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
             shocked.difference_update(imp.keys())
diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index a4ce83e..7e45632 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -51,7 +51,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.ancestors(d) for d in nodes])
+        return set().union(*[self.ancestors(d) for d in nodes])
 
     def downstream(self, nodes):
         """
@@ -59,7 +59,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.descendants(d) for d in nodes])
+        return set().union(*[self.descendants(d) for d in nodes])
 
     def roots(self):
         """
@@ -191,7 +191,7 @@ def get_sufficient_nodes(g, included, given=None):
         for pa in pas:
             mi.remove_edge(pa, nod)
     # find the nodes supporting the included nodes
-    return set.union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
+    return set().union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
 
 
 def get_minimal_nodes(g, included, given=None):
@@ -214,7 +214,7 @@ def get_offsprings(g, nodes):
     :param nodes: targeted nodes
     :return: a set of offspring nodes
     """
-    return set.union(*[g.descendants(d) for d in nodes])
+    return set().union(*[g.descendants(d) for d in nodes])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From d60b26d1462bfde657621d7ea909ce4cb00b266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 18/64] fix: Monitor.step(0) was taken as an unspecified time

---
 src/sims_pars/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/monitor.py b/src/sims_pars/monitor.py
index 3d8a9a5..c8d05be 100644
--- a/src/sims_pars/monitor.py
+++ b/src/sims_pars/monitor.py
@@ -47,7 +47,7 @@ class Monitor:
         self.Last = dict()
 
     def step(self, time=None):
-        time = time if time else self.Time + 1
+        time = time if time is not None else self.Time + 1
         if time < self.Time:
             raise KeyError('Backward time specified')
         elif time == self.Time:
-- 
2.43.0


From 31a42625f4f5e5a822d2f22e05480e4730b2dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 19/64] fix: negative targets had negative distances

---
 src/sims_pars/fit/targets/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/targets/single.py b/src/sims_pars/fit/targets/single.py
index 5d04d05..17acff7 100644
--- a/src/sims_pars/fit/targets/single.py
+++ b/src/sims_pars/fit/targets/single.py
@@ -14,7 +14,7 @@ class DataPointError(AbsSingleData):
     def __init__(self, name, v, error=0.1):
         AbsSingleData.__init__(self, name, v)
         self.Error = error
-        self.Std = error * v / 2 / 1.96
+        self.Std = error * abs(v) / 2 / 1.96
 
     def get_var_obs(self):
         return self.Std ** 2
-- 
2.43.0


From 603597a726c12aa24bbfd7a104af711b444969b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 20/64] fix: LogPrior and DeepLogPrior were undefined before an
 impulse

---
 src/sims_pars/simulation/parcore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 400a411..e4f8ea9 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -8,6 +8,7 @@ __author__ = 'TimeWz667'
 class ParameterCore(Chromosome):
     def __init__(self, nickname, sg, vs, prior):
         Chromosome.__init__(self, vs, prior)
+        self.LogPrior = prior
         self.Nickname = nickname
         self.SG = sg
         self.Parent = None
-- 
2.43.0


From cf63a46720440a3ac8827e5dcdc31720625a501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 21/64] fix: ParameterCore.clone read an undefined
 LogLikelihood

---
 src/sims_pars/simulation/parcore.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index e4f8ea9..372f637 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -252,7 +252,6 @@ class ParameterCore(Chromosome):
         else:
             sg = self.SG
         pc_new = sg.generate(self.Nickname, exo=dict(self))
-        pc_new.LogLikelihood = self.LogLikelihood
         pc_new.LogPrior = self.LogPrior
 
         if include_children:
@@ -265,7 +264,6 @@ class ParameterCore(Chromosome):
             gp = chd.Group
             chd_new = pc_new.breed(k, gp, exo=chd.Locus)
             chd_new.LogPrior = chd.LogPrior
-            chd_new.LogLikelihood = chd.LogLikelihood
             chd.__children_copy(chd_new)
 
 
-- 
2.43.0


From cefcefe65e9117eb88d2b461f0d03d46da52abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 22/64] fix: ParameterCore.duplicate called an undefined method

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 372f637..69d6b42 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -62,7 +62,7 @@ class ParameterCore(Chromosome):
     def duplicate(self, nickname):
         if not self.Parent:
             raise AttributeError('Root node can not be duplicated')
-        return self.Parent.bread(nickname, self.Group, exo=self.Locus)
+        return self.Parent.breed(nickname, self.Group, exo=self.Locus)
 
     def detach_from_parent(self, collect_pars=False):
         """
-- 
2.43.0


From 392d3e6de0dea49ca41ebe4f318b393eadf8e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 23/64] fix: detach_from_parent(collect_pars=True) overrode own
 values and crashed

---
 src/sims_pars/simulation/parcore.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 69d6b42..d5947b9 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -73,9 +73,10 @@ class ParameterCore(Chromosome):
             return
         self.Parent.remove_children(self.Nickname)
         if collect_pars:
-            for k, v in self.Parent:
-                self[k] = v
-            self.SG.set_local_actors(self)
+            for k, v in dict(iter(self.Parent)).items():
+                if k not in self:
+                    self[k] = v
+            self.SG.put_local_actors(self)
 
         self.Parent = None
 
-- 
2.43.0


From 7eb78803808c49a9c2124eb2279f0986e217185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 24/64] fix: get_child_samplers called an undefined method

---
 src/sims_pars/simulation/parcore.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index d5947b9..24e9f57 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -134,11 +134,9 @@ class ParameterCore(Chromosome):
     def get_child_samplers(self, group):
         assert group in self.SG.Children
 
-        try:
-            ca = self.ChildrenActors[group]
-        except KeyError:
-            ca = self.SG.SC[group].get_shared_actors(self)
-        return ca
+        if self.ChildrenActors is None or group not in self.ChildrenActors:
+            self.SG.SC[group].put_shared_actors_on_parent(self)
+        return self.ChildrenActors[group]
 
     def find_descendant(self, address):
         """
-- 
2.43.0


From 5a9b02b38dae9e0b7fe74e84385172281fb7aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 25/64] fix: reset_sc crashed for cores with children

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 24e9f57..e0ab60d 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -207,7 +207,7 @@ class ParameterCore(Chromosome):
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
-            v.reset_sc(self, sc)
+            v.reset_sc(sc)
 
     @property
     def DeepLogPrior(self):
-- 
2.43.0


From f92fc8358a0b7d0507cb6f5aef8421a311a8fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 26/64] fix: LogProb was left outdated by an impulse on a leaf

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index e0ab60d..d11c095 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -198,7 +198,7 @@ class ParameterCore(Chromosome):
         for v in self.Children.values():
             v.__set_response(imp, shocked)
 
-        if shocked_locus:
+        if shocked_locus or any(d in self.Locus for d in imp):
             self.reset_probability()
 
     def __dict__(self):
-- 
2.43.0


From 7c3bc8db2c95c51da5833132931af534adc32e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 27/64] fix: Domain included fixed exogenous and discrete
 variables

---
 src/sims_pars/fit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index 03d4d1d..a20c145 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -88,7 +88,7 @@ class DataModel(metaclass=ABCMeta):
     def Domain(self):
         p = self.sample_prior()
         res = []
-        for node in self.BayesianNetwork.RVRoots:
+        for node in self.FreeParameters:
             d = self.BayesianNetwork[node].get_distribution(p)
             res.append(Domain(name=node, tp=d.Type, upper=d.Upper, lower=d.Lower, loc=d.mean(), scale=d.std()))
         return res
-- 
2.43.0


From 3143991c432ae58b171c719bf00dfacac70b49e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 28/64] fix: the trace of a fit kept the records of the
 previous fits

---
 src/sims_pars/fit/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index a20c145..64d1649 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -211,6 +211,7 @@ class Fitter(metaclass=ABCMeta):
     def fit(self, model: DataModel, **kwargs):
         self.attach(model)
         self.Collector = ParameterSet()
+        self.Monitor.reset()
         self.update_settings(**kwargs)
         self.initialise()
         self.update()
-- 
2.43.0


From 42f3f074d4e4b7eab02eda74819f341f429ff5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 29/64] fix: ApproxBayesCom crashed with parallel=False

---
 src/sims_pars/fit/abcom/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index e08de05..0a2fe95 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -106,7 +106,7 @@ class ApproxBayesCom(Fitter):
             n_eval = 0
             for _ in tqdm.tqdm(range(n_collect), 'Collect posterior'):
                 _, sim, ne = sample_ess(self.Model, eps)
-                post.append(sim)
+                post.append(Particle.from_json(sim))
                 n_eval += ne
 
         for pt in post.Particles:
-- 
2.43.0


From 86d97b0b8f90a12674429d3f194790be01be03b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 30/64] fix: ABC posteriors were labelled as HME

---
 src/sims_pars/fit/abcom/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index 0a2fe95..e232c8a 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -93,7 +93,7 @@ class ApproxBayesCom(Fitter):
         state = self.State
         eps = state.Eps
 
-        post = ParameterSet('HME')
+        post = ParameterSet('ABC')
         post.keep('Eps', eps)
 
         if self.Settings['parallel']:
-- 
2.43.0


From 1435a4a8e885b23d8842fff9c77dc85708384fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 31/64] fix: ABC-SMC crashed when a particle could not be
 mutated to a finite distance

---
 src/sims_pars/fit/abc_smc/alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 17a097a..4f48f83 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -82,8 +82,8 @@ def sample_mutation(model, pt0, steps, unpack=False):
         di = model.calc_distance(sim)
 
         if n_eval > 20:
-            sim = pt0
-            di = pt0['distance']
+            sim = pt0 if isinstance(pt0, Particle) else Particle.from_json(pt0)
+            di = model.calc_distance(sim)
             break
 
     sim = sim.to_json() if unpack else sim
-- 
2.43.0


From 014ac8c8848d7d89d0fd4839040fdf4c878af994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 32/64] fix: ABC-SMC crashed when a proposal was invalid for
 its child nodes

---
 src/sims_pars/fit/abc_smc/alg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 4f48f83..6497057 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -2,6 +2,7 @@ from sims_pars.fit.base import Fitter, Particle
 from sims_pars.fit.results import ParameterSet
 import numpy as np
 import numpy.random as rd
+from pydantic import ValidationError
 from joblib import Parallel, delayed
 from tqdm import tqdm
 
@@ -72,7 +73,11 @@ def sample_mutation(model, pt0, steps, unpack=False):
     p0 = pt0.Pars if isinstance(pt0, Particle) else pt0['Pars']['Locus']
     while np.isinf(di):
         p1 = mutate(p0, steps)
-        p1 = model.serve(p1)
+        try:
+            p1 = model.serve(p1)
+        except ValidationError:
+            # the proposal is out of the parameter space
+            continue
         if np.isinf(p1.LogProb):
             continue
 
-- 
2.43.0


From 565d628571d09f1e71b886e438c211e440e4cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 33/64] fix: ABC-SMC lost all the particles when their
 distances were tied

---
 src/sims_pars/fit/abc_smc/alg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 6497057..3082345 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -210,8 +210,7 @@ class ApproxBayesComSMC(Fitter):
         wts = wts0.copy()
         for a in range(len(wts)):
             d = ds[a]
-            if d < eps0:
-                wts[a] = wts[a] if d < eps1 else 0
+            wts[a] = wts[a] if d <= eps1 else 0
         wts /= wts.sum()
         return wts
 
@@ -249,7 +248,7 @@ class ApproxBayesComSMC(Fitter):
         acc = np.zeros(n_iter)
         for i, p in enumerate(theta_p):
             d_p = p['distance']
-            if d_p < eps1:
+            if d_p <= eps1:
                 acc[i] = 1
 
         # Update accepted proposals
-- 
2.43.0


From 76b1b83847ed9f3904f67d781d24411ffef063d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 34/64] fix: HME crashed with n_sims given but n_ems not

---
 src/sims_pars/fit/hme/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 4c526f9..20d44e5 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -71,7 +71,7 @@ class BayesHistoryMatching(Fitter):
             self.Settings['n_sims'] = n_sims = n_pars * 10
 
         if self.Settings['n_ems'] <= 0:
-            self.Settings['n_ems'] = n_sims * 100
+            self.Settings['n_ems'] = self.Settings['n_sims'] * 100
 
         v_m = self.Settings['var_model']
 
-- 
2.43.0


From 5c7cd689104fa3e78d1d30420c5c345cf1b6cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 35/64] fix: HME trained emulators and simulated models with
 wrong inputs

Emulators were trained with parameter values but predicted with unit-scale
positions; models were simulated without their derived and exogenous variables.
---
 src/sims_pars/fit/hme/alg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 20d44e5..4697666 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -116,8 +116,9 @@ class BayesHistoryMatching(Fitter):
 
         for xs in tqdm.tqdm(xss, desc='Simulation'):
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
-            sim = model.simulate(pars)
+            sim = model.simulate(model.serve(pars))
             model.flatten(sim)
+            sim['Xs'] = xs
             pts_sim.append(sim)
         return pts_sim
 
@@ -187,7 +188,7 @@ class BayesHistoryMatching(Fitter):
 
         for xs in xss:
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
-            sim = model.simulate(pars)
+            sim = model.simulate(model.serve(pars))
             model.flatten(sim)
             post.append(sim)
 
-- 
2.43.0


From f4ef716d40cdfc368d7f68591c061cbd8cfd76ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 36/64] fix: sims_pars.data imported a package that does not
 exist

---
 src/sims_pars/data/__init__.py     | 10 +++++-----
 src/sims_pars/data/reg/__init__.py |  8 ++++----
 src/sims_pars/data/reg/glm.py      |  4 ++--
 src/sims_pars/data/reg/hazard.py   |  2 +-
 src/sims_pars/data/reg/linear.py   |  2 +-
 src/sims_pars/data/reg/survival.py |  4 ++--
 src/sims_pars/data/static.py       |  4 ++--
 src/sims_pars/data/timeseries.py   |  4 ++--
 8 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/sims_pars/data/__init__.py b/src/sims_pars/data/__init__.py
index 72ba13f..41ab4af 100644
--- a/src/sims_pars/data/__init__.py
+++ b/src/sims_pars/data/__init__.py
@@ -1,7 +1,7 @@
-from epidag.data.frame import *
-from epidag.data.static import *
-from epidag.data.timeseries import *
-from epidag.data.datafunction import *
-from epidag.data.reg import *
+from sims_pars.data.frame import *
+from sims_pars.data.static import *
+from sims_pars.data.timeseries import *
+from sims_pars.data.datafunction import *
+from sims_pars.data.reg import *
 
 __author__ = 'TimeWz667'
diff --git a/src/sims_pars/data/reg/__init__.py b/src/sims_pars/data/reg/__init__.py
index ff9a9a1..c53d8e2 100644
--- a/src/sims_pars/data/reg/__init__.py
+++ b/src/sims_pars/data/reg/__init__.py
@@ -1,4 +1,4 @@
-from epidag.data.reg.linear import *
-from epidag.data.reg.glm import *
-from epidag.data.reg.hazard import *
-from epidag.data.reg.survival import *
+from sims_pars.data.reg.linear import *
+from sims_pars.data.reg.glm import *
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.survival import *
diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index fcce1e8..522660a 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.distribution import parse_distribution
-from epidag.data.reg.linear import LinearCombination, Regression
+from sims_pars.prob import parse_distribution
+from sims_pars.data.reg.linear import LinearCombination, Regression
 
 
 __author__ = ['TimeWz667']
diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 459cb73..28f66c2 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -3,7 +3,7 @@ import numpy.random as rd
 from scipy.special import gamma
 from scipy.interpolate import interp1d
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import AbsDistribution
+from sims_pars.prob import AbsDistribution
 
 
 __all__ = ['Hazard', 'ExponentialHazard', 'WeibullHazard', 'EmpiricalHazard',
diff --git a/src/sims_pars/data/reg/linear.py b/src/sims_pars/data/reg/linear.py
index e84a4e6..9df8909 100644
--- a/src/sims_pars/data/reg/linear.py
+++ b/src/sims_pars/data/reg/linear.py
@@ -1,5 +1,5 @@
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import parse_distribution
+from sims_pars.prob import parse_distribution
 
 __author__ = 'TimeWz667'
 __all__ = ['LinearCombination', 'Regression', 'LinearRegression']
diff --git a/src/sims_pars/data/reg/survival.py b/src/sims_pars/data/reg/survival.py
index aab424f..d601f6f 100644
--- a/src/sims_pars/data/reg/survival.py
+++ b/src/sims_pars/data/reg/survival.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.data.reg.hazard import *
-from epidag.data.reg.linear import Regression, LinearCombination
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.linear import Regression, LinearCombination
 
 __author__ = 'TimeWz667'
 __all__ = ['CoxRegression', 'ZeroInflatedCoxRegression']
diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 232670d..d48dfc0 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -1,6 +1,6 @@
 import pandas as pd
-from epidag.distribution import CategoricalRV
-from epidag.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
 
 __author__ = 'TimeWz667'
 __all__ = ['TransitionMatrix', 'ConditionalProbabilityTable']
diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index c9f6b84..bb6ee1a 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.interpolate import interp1d
-from epidag.data.frame import AbsDataSet
-from epidag.distribution import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
 
 __author__ = 'TimeWz667'
 __all__ = ['TimeSeries', 'TimeSeriesVector', 'TimeSeriesProbabilityTable', 'LeeCarter']
-- 
2.43.0


From 807bcb2d38aea288b279fc80733f89b4c0aa2170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 37/64] fix: the genetic algorithm imported a package that does
 not exist

---
 src/sims_pars/fit/ga/__init__.py | 2 +-
 src/sims_pars/fit/ga/alg.py      | 6 +++---
 src/sims_pars/fitting/fitter.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/fit/ga/__init__.py b/src/sims_pars/fit/ga/__init__.py
index 0381e63..3214c58 100644
--- a/src/sims_pars/fit/ga/__init__.py
+++ b/src/sims_pars/fit/ga/__init__.py
@@ -1 +1 @@
-from fit.ga.alg import GeneticAlg
+from sims_pars.fit.ga.alg import GeneticAlg
diff --git a/src/sims_pars/fit/ga/alg.py b/src/sims_pars/fit/ga/alg.py
index b5f7cb0..3d85e86 100644
--- a/src/sims_pars/fit/ga/alg.py
+++ b/src/sims_pars/fit/ga/alg.py
@@ -1,8 +1,8 @@
 from sims_pars.fitting.fitter import Fitter, ParameterSet
 from sims_pars.fitting.util import draw, draw_parallel, serve_and_evaluate, serve_and_evaluate_parallel
-from fit.ga.cross import get_crossover
-from fit.ga.select import get_selector
-from fit.ga.mutate import get_mutator
+from sims_pars.fit.ga.cross import get_crossover
+from sims_pars.fit.ga.select import get_selector
+from sims_pars.fit.ga.mutate import get_mutator
 import numpy as np
 import numpy.random as rd
 from scipy.special import logsumexp
diff --git a/src/sims_pars/fitting/fitter.py b/src/sims_pars/fitting/fitter.py
index a4c9007..6419429 100644
--- a/src/sims_pars/fitting/fitter.py
+++ b/src/sims_pars/fitting/fitter.py
@@ -3,7 +3,7 @@ from sims_pars.bayesnet import Chromosome
 from sims_pars.monitor import Monitor
 from sims_pars.fitting.base import AbsObjective
 from sims_pars.fitting.util import draw
-from fit.results import ParameterSet
+from sims_pars.fit.results import ParameterSet
 from joblib import Parallel, delayed
 
 
-- 
2.43.0


From 1ce289d951eccc48c160551381ecc4d3172ca719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 38/64] fix: TransitionMatrix.sample looked up wrong states

---
 src/sims_pars/data/static.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index d48dfc0..17cd41b 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -26,15 +26,9 @@ class TransitionMatrix(AbsDataSet):
         return self[current]()
 
     def sample(self, n=1, **kwargs):
-        if n == 1:
-            return self(current=kwargs)
-        else:
-            if 'currents' in kwargs:
-                ks = kwargs['currents']
-            else:
-                ks = [kwargs['current']]
-            n = max(n, len(ks))
-            return [self(current=k) for k in zip(range(n), ks)]
+        if 'currents' in kwargs:
+            return [self(current=k) for k in kwargs['currents']]
+        return AbsDataSet.sample(self, n, **kwargs)
 
     def __repr__(self):
         return 'Transition Matrix: {}'.format(', '.join(self.StateFrom))
-- 
2.43.0


From f4a647ebf2b0017da76783c378338413f25c244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 39/64] fix: PoissonRegression.predict ignored its expectation

---
 src/sims_pars/data/reg/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index 522660a..6eff0a2 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -44,7 +44,7 @@ class PoissonRegression(Regression):
         return np.exp(mu)
 
     def predict(self, xs):
-        return np.random.poisson(1, self.expectation(xs))
+        return np.random.poisson(self.expectation(xs))
 
     def get_sampler(self, xs):
         return parse_distribution('pois(lam)', {'lam': self.expectation(xs)})
-- 
2.43.0


From a91463d59e4678046cf5612453cdf0a3a7c8bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 40/64] fix: means and standard deviations of hazard
 distributions were wrong

---
 src/sims_pars/data/reg/hazard.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 28f66c2..4cec903 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -20,11 +20,11 @@ class Hazard(metaclass=ABCMeta):
         pass
 
     @abstractmethod
-    def mean(self):
+    def mean(self, rr=1):
         pass
 
     @abstractmethod
-    def std(self):
+    def std(self, rr=1):
         pass
 
 
@@ -38,11 +38,11 @@ class ExponentialHazard(Hazard):
     def inv_cum_hazard(self, h):
         return h / self.Rate
 
-    def mean(self):
-        return 1 / self.Rate
+    def mean(self, rr=1):
+        return 1 / self.Rate / rr
 
-    def std(self):
-        return 1 / self.Rate
+    def std(self, rr=1):
+        return 1 / self.Rate / rr
 
 
 class WeibullHazard(Hazard):
@@ -56,11 +56,11 @@ class WeibullHazard(Hazard):
     def inv_cum_hazard(self, h):
         return pow(h, 1/self.K) / self.Lambda
 
-    def mean(self):
-        return gamma(1+1/self.K) * self.Lambda
+    def mean(self, rr=1):
+        return gamma(1+1/self.K) / self.Lambda * pow(rr, -1/self.K)
 
-    def std(self):
-        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) * self.Lambda
+    def std(self, rr=1):
+        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) / self.Lambda * pow(rr, -1/self.K)
 
 
 class EmpiricalHazard(Hazard):
@@ -76,10 +76,10 @@ class EmpiricalHazard(Hazard):
     def inv_cum_hazard(self, h):
         return self.FnInvCumHaz(h)
 
-    def mean(self):
+    def mean(self, rr=1):
         return None  # todo
 
-    def std(self):
+    def std(self, rr=1):
         return None  # todo
 
 
@@ -110,10 +110,10 @@ class HazardDistribution(AbsDistribution):
         return np.log((s1 - s2)/1E-5)
 
     def mean(self):
-        return 1 / self.Hazard.mean() / self.RiskRatio
+        return self.Hazard.mean(self.RiskRatio)
 
     def std(self):
-        return pow(self.RiskRatio, -2) / self.Hazard.std()
+        return self.Hazard.std(self.RiskRatio)
 
 
 class ZeroInflatedHazardDistribution(HazardDistribution):
@@ -139,3 +139,7 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
 
     def mean(self):
         return HazardDistribution.mean(self) * (1-self.Prob)
+
+    def std(self):
+        m, s = HazardDistribution.mean(self), HazardDistribution.std(self)
+        return np.sqrt((1-self.Prob) * (s ** 2 + self.Prob * m ** 2))
-- 
2.43.0


From 7c2952809ec4e8c979b347ef8b5e365ae0498217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 41/64] fix: logpdf of hazard distributions was always nan

---
 src/sims_pars/data/reg/hazard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 4cec903..1905ab5 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -105,9 +105,9 @@ class HazardDistribution(AbsDistribution):
             return [self.Hazard.inv_cum_hazard(s) for s in ss]
 
     def logpdf(self, v):
-        s1 = np.expm1(-self.Hazard.cum_hazard(v))
-        s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5))
-        return np.log((s1 - s2)/1E-5)
+        s1 = np.expm1(-self.Hazard.cum_hazard(v) * self.RiskRatio)
+        s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5) * self.RiskRatio)
+        return np.log((s2 - s1)/1E-5)
 
     def mean(self):
         return self.Hazard.mean(self.RiskRatio)
-- 
2.43.0


From a027e7603a83d85d14c6bfa90a152e2ee20c487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 42/64] fix: EmpiricalHazard could not be built

---
 src/sims_pars/data/reg/hazard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 1905ab5..1aaf5a0 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -67,8 +67,8 @@ class EmpiricalHazard(Hazard):
     def __init__(self, times, cum_haz):
         self.MaxTime = max(times)
         self.MaxHaz = max(cum_haz)
-        self.FnCumHaz = interp1d(times, cum_haz, fill_value=[0, self.MaxHaz])
-        self.FnInvCumHaz = interp1d(cum_haz, times, fill_value=[0, self.MaxTime])
+        self.FnCumHaz = interp1d(times, cum_haz, bounds_error=False, fill_value=(0, self.MaxHaz))
+        self.FnInvCumHaz = interp1d(cum_haz, times, bounds_error=False, fill_value=(0, self.MaxTime))
 
     def cum_hazard(self, t):
         return self.FnCumHaz(t)
-- 
2.43.0


From 992ac43c5f24ed18adfacb390d3d9f578cb2d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 43/64] fix: nodes with data functions could not be defined

---
 src/sims_pars/bayesnet/loci.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 24972fb..efd2da6 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -113,8 +113,13 @@ class ExoValueLoci(Loci):
 class DistributionLoci(Loci):
     def __init__(self, name, val, pas=None):
         Loci.__init__(self, name)
-        self.Func = complete_function(val)
         self.Parsed = parse_function(val)
+        try:
+            self.Func = complete_function(val)
+        except KeyError:
+            if self.Parsed.Function not in DATA_FUNC:
+                raise
+            self.Func = val
         self.__parents = pas if pas else self.Parsed.Parents
 
     @property
@@ -129,7 +134,7 @@ class DistributionLoci(Loci):
         try:
             return parse_distribution(self.Func, loc=pas)
         except KeyError:
-            return find_data_sampler(self.Func.Function, loc=pas)
+            return find_data_sampler(self.Parsed.Function, loc=pas)
 
     def render(self, pas=None):
         return self.get_distribution(pas).sample()
-- 
2.43.0


From fa5adf3e8d0fbe5cac66d613fbd327afbd568c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 44/64] fix: a variable named as a distribution made the
 distribution unusable

---
 src/sims_pars/factory/craftstation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index bd10b5d..7ac8c87 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -58,7 +58,17 @@ class Atelier:
     def get_blueprint(self, seq, loc=None, to_complete=True):
         if to_complete:
             seq = self.complete_def(seq)
-        return eval(seq, dict(self.Creators), loc)
+
+        call = ast.parse(seq, mode='eval').body
+        if not isinstance(call, ast.Call):
+            return eval(seq, dict(self.Creators), loc)
+
+        # the variables in loc must not mask the product
+        def evaluate(node):
+            return eval(compile(ast.Expression(node), '<string>', 'eval'), dict(self.Creators), loc)
+
+        return self.Creators[call.func.id](*[evaluate(arg) for arg in call.args],
+                                           **{arg.arg: evaluate(arg.value) for arg in call.keywords})
 
     def create(self, seq, loc=None, append_src=False, to_complete=True):
         bp = self.get_blueprint(seq, loc=loc, to_complete=to_complete)
-- 
2.43.0


From 43a48fb0d9a48db5fabb6865d55a4a0e89396f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 45/64] fix: math functions were not available in the arguments
 of distributions

---
 src/sims_pars/factory/craftstation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index 7ac8c87..6b979b1 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -1,5 +1,6 @@
 from pydantic import BaseModel, ValidationError
 from abc import ABCMeta, abstractmethod
+from sims_pars.util import MATH_FUNC
 import ast
 
 __author__ = 'Chu-Chang Ku'
@@ -65,7 +66,7 @@ class Atelier:
 
         # the variables in loc must not mask the product
         def evaluate(node):
-            return eval(compile(ast.Expression(node), '<string>', 'eval'), dict(self.Creators), loc)
+            return eval(compile(ast.Expression(node), '<string>', 'eval'), {**self.Creators, **MATH_FUNC}, loc)
 
         return self.Creators[call.func.id](*[evaluate(arg) for arg in call.args],
                                            **{arg.arg: evaluate(arg.value) for arg in call.keywords})
-- 
2.43.0


From 6f6a2f42f257c4ba5848254b73f4b62fb5eaefc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 46/64] fix: samplers ignored the nodes hoisted to the parent
 group

---
 src/sims_pars/simulation/nodeset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 81d9bdc..64b806d 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -299,6 +299,8 @@ class NodeSet:
                 self.LocalSamplers[d] = self.SharedSamplers[d] = actor
 
         for ch in self.__children.values():
+            # including the nodes hoisted by its siblings and itself
+            ch.__was_fixed.update(self.__was_fixed, self.FixedNodes)
             ch._define_sampler_blueprints(bn)
 
     def _sort_fixed_nodes(self, bn):
-- 
2.43.0


From 0ceb01c58bf9c31c6919aba13fdf9b37599672f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 47/64] fix: continuing from given parameters overrode the
 exogenous parameters

---
 src/sims_pars/fit/abc_smc/alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 3082345..1edea35 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -40,8 +40,8 @@ def sample_fin_cont(model, p0, unpack=False):
     n_eval = 0
     while np.isinf(di):
         n_eval += 1
-        p = model.sample_prior()
-        p.impulse(p0, model.BayesianNetwork)
+        # conditional on the parents and the exogenous parameters
+        p = model.serve({k: v for k, v in p0.items() if k in model.BayesianNetwork and v is not None})
         sim = model.simulate(p)
         di = model.calc_distance(sim)
 
-- 
2.43.0


From 068a4943425e2d6193bcbe0d30b76ce697a8fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:50 +0000
Subject: [PATCH 48/64] fix: series given out of order of time took wrong
 values beyond their ends

---
 src/sims_pars/data/timeseries.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index bb6ee1a..630f42b 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -10,6 +10,7 @@ __all__ = ['TimeSeries', 'TimeSeriesVector', 'TimeSeriesProbabilityTable', 'LeeC
 class TimeSeries(AbsDataSet):
     def __init__(self, mat, i_time, i_x, kind='nearest'):
         AbsDataSet.__init__(self, mat)
+        mat = mat.sort_values(i_time)
         ts = np.array(mat[i_time])
         xs = np.array(mat[i_x])
         self.IndexTime = i_time
@@ -28,6 +29,7 @@ class TimeSeriesVector(AbsDataSet):
         AbsDataSet.__init__(self, mat)
         self.IndexTime = i_time
         self.IndexXs = i_xs
+        mat = mat.sort_values(i_time)
         ts = np.array(mat[i_time])
         self.Lines = dict()
 
@@ -47,6 +49,7 @@ class TimeSeriesProbabilityTable(AbsDataSet):
         AbsDataSet.__init__(self, mat)
         self.IndexTime = i_time
         self.IndexXs = i_xs
+        mat = mat.sort_values(i_time)
         ts = np.array(mat[i_time])
         self.Ts = interp1d(x=ts, y=ts, kind='nearest', bounds_error=False, fill_value=(ts[0], ts[-1]))
         self.PTs = dict()
@@ -69,6 +72,7 @@ class LeeCarter(AbsDataSet):
                  i_age='Age', i_al='Alpha', i_be='Beta', i_ka='Kappa', kind='nearest'):
         AbsDataSet.__init__(self, mat_t)
 
+        mat_t = mat_t.sort_values(i_time)
         self.Times = np.array(mat_t[i_time])
         self.Kappa = np.array(mat_t[i_ka])
         self.Ages = list(mat_a[i_age])
-- 
2.43.0


From f830a30703729f147e485648e06423262cc82e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:50 +0000
Subject: [PATCH 49/64] fix: rows of a probability table with the same
 attributes replaced each other

---
 src/sims_pars/data/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 17cd41b..2753c9f 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -48,7 +48,7 @@ class ConditionalProbabilityTable(AbsDataSet):
         for i, (k, ir) in enumerate(mat.iterrows()):
             key = ':'.join([ir[x] for x in indices])
             p = self.Ps[i]
-            self.InvGroups[key] = p
+            self.InvGroups[key] = self.InvGroups.get(key, 0) + p
             self.Groups[key] = {x: ir[x] for x in indices}
         self.Sampler = CategoricalRV(self.InvGroups)
 
-- 
2.43.0


From 6a864f34b4944c392ac74a3f8b22c4cfb80e3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 50/64] fix: negative survival times had a density

---
 src/sims_pars/data/reg/hazard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 1aaf5a0..dbf0814 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -105,6 +105,9 @@ class HazardDistribution(AbsDistribution):
             return [self.Hazard.inv_cum_hazard(s) for s in ss]
 
     def logpdf(self, v):
+        if v < 0:
+            return -np.inf
+        v = max(v, 1E-5)
         s1 = np.expm1(-self.Hazard.cum_hazard(v) * self.RiskRatio)
         s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5) * self.RiskRatio)
         return np.log((s2 - s1)/1E-5)
@@ -122,7 +125,7 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
         self.Prob = pr
 
     def logpdf(self, v):
-        if v <= 0:
+        if v == 0:
             return np.log(self.Prob)
         else:
             return np.log(1-self.Prob) + HazardDistribution.logpdf(self, v)
-- 
2.43.0


From 9f3fdf90143382c27fb849b177eaded2f9ed1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 51/64] fix: late survival times were scored as impossible

---
 src/sims_pars/data/reg/hazard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index dbf0814..e71a348 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -108,9 +108,9 @@ class HazardDistribution(AbsDistribution):
         if v < 0:
             return -np.inf
         v = max(v, 1E-5)
-        s1 = np.expm1(-self.Hazard.cum_hazard(v) * self.RiskRatio)
-        s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5) * self.RiskRatio)
-        return np.log((s2 - s1)/1E-5)
+        h1 = self.Hazard.cum_hazard(v) * self.RiskRatio
+        h0 = self.Hazard.cum_hazard(v - 1E-5) * self.RiskRatio
+        return np.log(-np.expm1(h0 - h1)/1E-5) - h0
 
     def mean(self):
         return self.Hazard.mean(self.RiskRatio)
-- 
2.43.0


From 19ddf9fbbd89f3710c2df4af4258a724d6525378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 52/64] fix: probability tables refused attributes that are
 numbers

---
 src/sims_pars/data/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 2753c9f..f9a057c 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -46,7 +46,7 @@ class ConditionalProbabilityTable(AbsDataSet):
         self.InvGroups = dict()
 
         for i, (k, ir) in enumerate(mat.iterrows()):
-            key = ':'.join([ir[x] for x in indices])
+            key = ':'.join([str(ir[x]) for x in indices])
             p = self.Ps[i]
             self.InvGroups[key] = self.InvGroups.get(key, 0) + p
             self.Groups[key] = {x: ir[x] for x in indices}
-- 
2.43.0


From 257d2608602c03568051959952362a3c1751fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 53/64] fix: counts without an impossible category were scored
 as nan

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 6c5db08..985c1e5 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -203,7 +203,7 @@ class CategoricalRV(AbsDistribution):
     def logpdf(self, v):
         prob = dict(zip(self.cat, self.p))
         try:
-            return np.array([x*np.log(prob[k]) for k, x in v.items()]).sum()
+            return np.array([x*np.log(prob[k]) for k, x in v.items() if x != 0]).sum()
         except AttributeError:
             return np.log(prob[v])
 
-- 
2.43.0


From 58abbfb5f663f6a867113e7d5b78d4fb2b0ef603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 54/64] fix: copies of particles shared their outputs with the
 original

---
 src/sims_pars/fit/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index 64d1649..f491ed3 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -44,12 +44,12 @@ class Particle:
         }
 
     def copy(self):
-        pt = Particle(self.Pars.clone(), self.Sims)
+        pt = Particle(self.Pars.clone(), dict(self.Sims))
         if 'Xs' in self.Notes:
-            pt['Xs'] = self.Notes['Xs']
+            pt['Xs'] = list(self.Notes['Xs'])
 
         if 'Ys' in self.Notes:
-            pt['Ys'] = self.Notes['Ys']
+            pt['Ys'] = dict(self.Notes['Ys'])
         return pt
 
     @staticmethod
-- 
2.43.0


From 3b97e0157ade61fb4befbc5029c6bd5c91dd89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 55/64] fix: rejection ABC accepted simulations with undefined
 outputs

---
 src/sims_pars/fit/abcom/alg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index e232c8a..3cd3b7f 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -17,7 +17,7 @@ class StateABC:
 def sample_fin(model):
     di = np.Inf
     n_eval = 0
-    while np.isinf(di):
+    while not np.isfinite(di):
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -28,7 +28,7 @@ def sample_fin(model):
 def sample_ess(model, eps):
     di = np.Inf
     n_eval = 0
-    while di > eps:
+    while not di <= eps:
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -68,7 +68,7 @@ class ApproxBayesCom(Fitter):
             n_eval = 0
             for _ in tqdm.tqdm(range(n_sim), 'Evaluate prior'):
                 di = np.Inf
-                while np.isinf(di):
+                while not np.isfinite(di):
                     n_eval += 1
                     p = self.Model.sample_prior()
                     sim = self.Model.simulate(p)
-- 
2.43.0


From b4f8b856754d1dee97afa2a6b31fe4ea81f3874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 56/64] fix: sequential ABC started from simulations with
 undefined outputs

---
 src/sims_pars/fit/abc_smc/alg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 1edea35..347a322 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -25,7 +25,7 @@ class StateABCSMC:
 def sample_fin(model, unpack=False):
     di = np.Inf
     n_eval = 0
-    while np.isinf(di):
+    while not np.isfinite(di):
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -38,7 +38,7 @@ def sample_fin(model, unpack=False):
 def sample_fin_cont(model, p0, unpack=False):
     di = np.Inf
     n_eval = 0
-    while np.isinf(di):
+    while not np.isfinite(di):
         n_eval += 1
         # conditional on the parents and the exogenous parameters
         p = model.serve({k: v for k, v in p0.items() if k in model.BayesianNetwork and v is not None})
@@ -52,7 +52,7 @@ def sample_fin_cont(model, p0, unpack=False):
 def sample_ess(model, eps, unpack=False):
     di = np.Inf
     n_eval = 0
-    while di > eps:
+    while not di <= eps:
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
-- 
2.43.0


From 4fafdad335c651e3fb6830c59bc82e4b8fe3333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:43 +0000
Subject: [PATCH 57/64] fix: a variable named as a built-in function is a
 parent, not a constant

---
 src/sims_pars/bayesnet/loci.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index efd2da6..3e6bda2 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -261,7 +261,12 @@ def parse_loci(df):
         if loci.startswith('f('):
             loci = PseudoLoci(name, loci)
         else:
+            # must be an expression
+            compile(loci, name, 'eval')
             try:
+                # a variable can be named as a built-in function
+                if parse_parents(loci)[0]:
+                    raise NameError
                 loci = ValueLoci(name, loci)
             except NameError:
                 loci = FunctionLoci(name, loci)
-- 
2.43.0


From 5d75515689e6b08a16c8d17495347113e1fc645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 58/64] fix: a variable held by a group is not floating in it
 as well

---
 src/sims_pars/simulation/nodeset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 64b806d..ad4c916 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -191,6 +191,7 @@ class NodeSet:
     def _hoist_node(self, node):
         if node not in self.__was_fixed:
             self.FixedNodes.add(node)
+            self.FloatingNodes.discard(node)
             self.__was_fixed.add(node)
 
     def _raise_up_floating(self):
@@ -217,7 +218,7 @@ class NodeSet:
             self.ExoNodes.difference_update(to_hoist)
 
         given = set.union(self.FixedNodes, self.ExoNodes, self.__was_fixed)
-        to_shift = [d for d in self.ListeningNodes if d not in self.__was_fixed]
+        to_shift = [d for d in self.ListeningNodes if d not in self.__was_fixed and d not in self.FixedNodes]
         to_shift = [d for d in to_shift if not bn.is_exogenous(d)]
         for d in to_shift:
             if bn.has_randomness(d, given):
-- 
2.43.0


From 816b44127ee3c89b24069005e7d1302ecf2329cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:44 +0000
Subject: [PATCH 59/64] fix: combinations of attributes with a colon or of
 mixed types were merged in probability tables

---
 src/sims_pars/data/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index f9a057c..5aa9735 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -46,7 +46,7 @@ class ConditionalProbabilityTable(AbsDataSet):
         self.InvGroups = dict()
 
         for i, (k, ir) in enumerate(mat.iterrows()):
-            key = ':'.join([str(ir[x]) for x in indices])
+            key = ':'.join([repr(ir[x]) for x in indices])
             p = self.Ps[i]
             self.InvGroups[key] = self.InvGroups.get(key, 0) + p
             self.Groups[key] = {x: ir[x] for x in indices}
-- 
2.43.0


From 99ba6e8e682b993d7e8256abbd859f0e1e3d53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:44 +0000
Subject: [PATCH 60/64] fix: survival times before the first time of an
 empirical baseline were drawn as zero

---
 src/sims_pars/data/reg/hazard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index e71a348..a572388 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -68,7 +68,7 @@ class EmpiricalHazard(Hazard):
         self.MaxTime = max(times)
         self.MaxHaz = max(cum_haz)
         self.FnCumHaz = interp1d(times, cum_haz, bounds_error=False, fill_value=(0, self.MaxHaz))
-        self.FnInvCumHaz = interp1d(cum_haz, times, bounds_error=False, fill_value=(0, self.MaxTime))
+        self.FnInvCumHaz = interp1d(cum_haz, times, bounds_error=False, fill_value=(min(times), self.MaxTime))
 
     def cum_hazard(self, t):
         return self.FnCumHaz(t)
-- 
2.43.0


From 1d2211e487f092d37e3518f7bf62415fe057d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:07 +0000
Subject: [PATCH 61/64] fix: categorical laws accepted negative weights and
 weights without a total

cat({'a': -1, 'b': -2}) was drawn from, and cat({'a': -1, 'b': 2}) was built
and gave b a positive log density; the weights of a law are now validated as
the parameters of the other laws are.
---
 src/sims_pars/prob.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 985c1e5..629556e 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -6,6 +6,7 @@ import numpy.random as rd
 from sims_pars.factory import get_atelier, AbsCreator
 import typing
 import pydantic.types as ptp
+from pydantic import validator
 
 
 __author__ = 'TimeWz667'
@@ -388,7 +389,13 @@ DistributionCentre.register('pois', CrePois)
 
 
 class CreCat(AbsCreator):
-    kv: typing.Dict[str, float]
+    kv: typing.Dict[str, ptp.NonNegativeFloat]
+
+    @validator('kv')
+    def check_total(cls, kv):
+        if not 0 < sum(kv.values()) < float('inf'):
+            raise ValueError('The weights must have a positive and finite total')
+        return kv
 
     def create(self):
         return CategoricalRV(self.kv)
-- 
2.43.0


From f5246fbc436e6607e6bd086a2717dbca224f4c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:33 +0000
Subject: [PATCH 62/64] fix: uniform laws with their bounds swapped were built
 and scored nan

A configuration whose parents imply an empty range is impossible; it was
scored nan, and unif(3, 1) was built although nothing can be drawn from it.
---
 src/sims_pars/prob.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 629556e..36574ec 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -302,6 +302,12 @@ class CreUniform(AbsCreator):
     min: float = 0
     max: float = 1
 
+    @validator('max', always=True)
+    def check_range(cls, v, values):
+        if 'min' in values and not v >= values['min']:
+            raise ValueError('The maximum must not be less than the minimum')
+        return v
+
     def create(self):
         return SpDouble(sts.uniform(self.min, self.max-self.min))
 
-- 
2.43.0


From cb6c680404954eb99779ac0c67f7cbced5fe331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:06 +0000
Subject: [PATCH 63/64] fix: variables depending on other unassigned variables
 were placed in no group

---
 src/sims_pars/simulation/nodeset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index ad4c916..7341279 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -243,7 +243,7 @@ class NodeSet:
         return nodes
 
     def _pass_down_undefined(self, bn, fixed, floating, nodes):
-        to_pass_down = set()
+        to_pass_down = list()
         gfi = set(self.FixedNodes)
         gfi.update(fixed)
 
@@ -259,10 +259,13 @@ class NodeSet:
                     self.FloatingNodes.add(node)
                 else:
                     self.FixedNodes.add(node)
+                    gfi.add(node)
+                gfl.add(node)
             elif ps <= gfl:
                 self.FloatingNodes.add(node)
+                gfl.add(node)
             else:
-                to_pass_down.add(node)
+                to_pass_down.append(node)
         for ch in self.__children.values():
             ch._pass_down_undefined(bn, gfi, gfl, to_pass_down)
 
-- 
2.43.0


From e440bc8535fe1771cc56f1dc18dfab29c26282cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:41 +0000
Subject: [PATCH 64/64] fix: history matching keeps the points on its relaxed
 cut-off (a wave in which all were equally implausible kept none and failed)

---
 src/sims_pars/fit/hme/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 4697666..002b39f 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -158,7 +158,7 @@ class BayesHistoryMatching(Fitter):
 
         co, acc = self.Settings['cutoff'], self.Settings['min_acc']
         co = max(co, np.quantile(ims, acc))
-        pts_pls = [pt for pt in pts_emu if pt['Imp'] < co]
+        pts_pls = [pt for pt in pts_emu if pt['Imp'] <= co]
 
         acc = len(pts_pls) / len(pts_emu)
         return pts_pls, co, acc
-- 
2.43.0

