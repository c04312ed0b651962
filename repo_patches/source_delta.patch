From faa4528f339569687f2584f3482f1989284c2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 01/75] fix: an omitted optional tensor ('') is no graph input
 and carries no node relation

---
 onnx_tool/graph.py | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 80de650..f5effa4 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -215,6 +215,8 @@ class Graph():
         if constant_folding:
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
+                    if tname == '':
+                        continue
                     if self.tensormap[tname].type == STATIC_TENSOR:
                         if tname not in self.initials:
                             self.initials.append(tname)
@@ -222,7 +224,7 @@ class Graph():
                         if tname not in self.dynamics:
                             self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
-                    if tname not in self.dynamics:
+                    if tname != '' and tname not in self.dynamics:
                         self.dynamics.append(tname)
         else:
             for initial in self.rawgraph.initializer:
@@ -230,13 +232,14 @@ class Graph():
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
-                    if tname not in self.initials and tname not in self.dynamics:
+                    if tname != '' and tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
-                    if tname not in self.dynamics:
+                    if tname != '' and tname not in self.dynamics:
                         self.dynamics.append(tname)
 
-        valid_tensors = []
+        # '' stands for an omitted optional tensor
+        valid_tensors = ['']
         valid_tensors.extend(self.initials)
         valid_tensors.extend(self.dynamics)
         rm_list = []
@@ -257,6 +260,8 @@ class Graph():
                         self.input.append(tensor)
             if not self.cfg.remove_dangling:
                 for tensor in node.output:
+                    if tensor == '':
+                        continue
                     if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
                         if tensor not in self.output:
                             self.output.append(tensor)
@@ -318,10 +323,14 @@ class Graph():
         for name in self.nodemap:
             node = self.nodemap[name]
             for tensor in node.input:
+                if tensor == '':
+                    continue
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(node.name)
             for tensor in node.output:
+                if tensor == '':
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(node.name)
@@ -349,6 +358,8 @@ class Graph():
                         sname = node_list.pop(0)
                         snode = self.nodemap[sname]
                         for ipn in snode.input:
+                            if ipn == '':
+                                continue
                             if len(self.consumedby[ipn]) == 1 and ipn not in sub_input:  # consumed by this node
                                 if ipn in self.producedby.keys():
                                     node_list.append(self.producedby[ipn][0])
@@ -402,6 +413,8 @@ class Graph():
                     sname = node_list.pop(0)
                     snode = self.nodemap[sname]
                     for ipn in snode.input:
+                        if ipn == '':
+                            continue
                         if len(self.consumedby[ipn]) == 1:  # consumed by this node
                             node_list.append(self.producedby[ipn][0])
                     if remove:
@@ -419,6 +432,9 @@ class Graph():
             newnode.name = newnode.op_type + '_' + str(self.node_count)
         self.node_count += 1
         for tensor in node_proto.input:
+            if tensor == '':
+                newnode.input.append(tensor)
+                continue
             if tensor in self.producedby:
                 for producer in self.producedby[tensor]:
                     newnode.prevnodes.append(self.nodemap[producer])
@@ -427,6 +443,9 @@ class Graph():
             self.consumedby[tensor].append(newnode.name)
             newnode.input.append(tensor)
         for tensor in node_proto.output:
+            if tensor == '':
+                newnode.output.append(tensor)
+                continue
             if tensor not in self.producedby:
                 self.producedby[tensor] = []
             self.producedby[tensor].append(newnode.name)
@@ -447,6 +466,9 @@ class Graph():
                 newnode.name = newnode.op_type + '_' + str(self.node_count)
             self.node_count += 1
             for tensor in node.input:
+                if tensor == '':
+                    newnode.input.append(tensor)
+                    continue
                 if tensor in self.producedby:
                     for producer in self.producedby[tensor]:
                         newnode.prevnodes.append(self.nodemap[producer])
@@ -455,6 +477,9 @@ class Graph():
                 self.consumedby[tensor].append(newnode.name)
                 newnode.input.append(tensor)
             for tensor in node.output:
+                if tensor == '':
+                    newnode.output.append(tensor)
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(newnode.name)
@@ -919,7 +944,8 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             for tname in node.output:
-                produced_by[tname] = name
+                if tname != '':
+                    produced_by[tname] = name
 
         consumed_by = {}
         dependencies = {}
@@ -984,6 +1010,8 @@ class Graph():
                     intensors.append(input)
 
             for output in self.nodemap[name].output:
+                if len(output) == 0:
+                    continue
                 if remove_initials and output in self.initials:
                     continue
                 if output in self.consumedby:
-- 
2.43.0


From 6caebd64f68884c9576a0c857591720fcf86d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 02/75] fix: removing nodes judges use by the current tensor
 relations and graph outputs

---
 onnx_tool/graph.py | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index f5effa4..7c3dccf 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -678,41 +678,38 @@ class Graph():
         # update consumer
         for i in node.input:
             if i in self.consumedby.keys():
-                if len(self.consumedby[i]) == 1 and i in self.producedby:
-                    pnode = self.producedby[i][0]
-                    assert (len(self.producedby[i]) == 1)
-                    dangle_node = True
-                    for o in self.nodemap[pnode].output:
-                        if o == i:
-                            continue
-                        if o in self.consumedby.keys() or o in self.output:
-                            dangle_node = False
-                            break
-                    if dangle_node:
-                        newnodes.append(pnode)
                 if nodename in self.consumedby[i]:
                     self.consumedby[i].remove(nodename)
                 if len(self.consumedby[i]) == 0:
                     self.consumedby.pop(i)
+                    newnodes.extend(self.producedby.get(i, []))
         self.nodemap.pop(nodename)
-        if recursive:
-            for node in newnodes:
-                self.remove_node(node)
+        while recursive and len(newnodes):
+            pnode = newnodes.pop()
+            if pnode not in self.nodemap:
+                continue
+            if any(self.consumedby.get(o) or o in self.output for o in self.nodemap[pnode].output):
+                continue
+            for i in self.nodemap[pnode].input:
+                newnodes.extend(self.producedby.get(i, []))
+            self.remove_node(pnode)
 
     def remove_subtree(self, nodename, nodeset=None):
         if nodeset is not None:
             if nodename in self.nodemap:  # may be already removed?
                 node = self.nodemap[nodename]
 
-                for n in node.nextnodes:
-                    nodeset.add(n.name)
-                    nodeset.union(self.remove_subtree(n.name, nodeset))
+                for o in node.output:
+                    for n in self.consumedby.get(o, []):
+                        if n not in nodeset:
+                            nodeset.add(n)
+                            self.remove_subtree(n, nodeset)
                 return nodeset
             return nodeset
 
         nodeset = set()
         nodeset.add(nodename)
-        nodeset.union(self.remove_subtree(nodename, nodeset))
+        self.remove_subtree(nodename, nodeset)
 
         for node in nodeset:
             if node not in self.nodemap:
@@ -724,14 +721,12 @@ class Graph():
         while try_to_remove:
             try_to_remove = False
             for nodename in list(self.nodemap.keys()):
+                if nodename not in self.nodemap:  # removed together with its consumer
+                    continue
                 node = self.nodemap[nodename]
                 node_used = False
                 for o in node.output:
-                    if o in self.output:
-                        node_used = True
-
-                for nnode in node.nextnodes:
-                    if nnode.name in self.nodemap:
+                    if o in self.output or self.consumedby.get(o):
                         node_used = True
                         break
 
-- 
2.43.0


From d459d769952f8cf1933efd04c5082d70261ae995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 03/75] fix: skip_node keeps graph outputs, renames every use
 and keeps tensor relations; relating keeps graph inputs dynamic

---
 onnx_tool/graph.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 7c3dccf..056ed85 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -337,7 +337,8 @@ class Graph():
 
     def update_tensor_relations(self):
         self.__update_consumer_producer__()
-        self.dynamics = list(self.producedby.keys())
+        self.dynamics = list(self.input)
+        self.dynamics.extend(t for t in self.producedby.keys() if t not in self.input)
 
     def __remove_if__(self):
         while True:
@@ -744,20 +745,31 @@ class Graph():
                 count += 1
                 indtensor = input
         if count == 1 and len(node.output) == 1:
-            self.consumedby[indtensor].remove(nodename)
-            if node.output[0] in self.consumedby:
-                for con in self.consumedby[node.output[0]]:
-                    con_node = self.nodemap[con]
-                    for i in range(len(con_node.input)):
-                        if con_node.input[i] == node.output[0]:
-                            con_node.input[i] = indtensor
-                            self.consumedby[indtensor].append(con)
-                            break
-            else:
-                for pro in self.producedby[indtensor]:
-                    pro_node = self.nodemap[pro]
-                    assert (len(pro_node.output) == 1)
-                    pro_node.output[0] = node.output[0]
+            oldname, newname = node.output[0], indtensor
+            if node.output[0] in self.output:
+                # the graph output keeps its name, the producer of the input takes it over
+                if indtensor not in self.producedby or indtensor in self.output:
+                    warnings.warn(f'Node {nodename} can not be skipped, its output {oldname} is a graph output')
+                    return
+                oldname, newname = indtensor, node.output[0]
+            outputs = list(self.output)
+            self.remove_node(nodename)
+            self.output = outputs
+            for pro in self.producedby.pop(oldname, []):
+                pro_node = self.nodemap[pro]
+                pro_node.output = [newname if o == oldname else o for o in pro_node.output]
+                self.producedby[newname] = [pro]
+            for con in self.consumedby.pop(oldname, []):
+                con_node = self.nodemap[con]
+                con_node.input = [newname if i == oldname else i for i in con_node.input]
+                if newname not in self.consumedby:
+                    self.consumedby[newname] = []
+                self.consumedby[newname].append(con)
+            if newname not in self.dynamics:
+                self.dynamics.append(newname)
+            if oldname in self.dynamics:
+                self.dynamics.remove(oldname)
+            return
         self.nodemap.pop(nodename)
 
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
-- 
2.43.0


From 34f4b73b3dc7d27ce30cbdab82994bc828c470ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 04/75] fix: fusing nodes keeps graph outputs and tensor
 relations

---
 onnx_tool/graph.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 056ed85..15c76e7 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -785,8 +785,10 @@ class Graph():
                     newnode_prot.attribute.append(attr)
                 count += 1
         from .node import create_node
+        graph_outputs = list(self.output)
         for name in nodes:
             self.remove_node(name)
+        self.output = graph_outputs
         newnode = create_node(newnode_prot)
         newnode.input = _inputs
         newnode.output = _outputs
@@ -796,11 +798,11 @@ class Graph():
             else:
                 self.consumedby[i] = [nodename]
             if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
+                newnode.prevnodes.extend(self.nodemap[p] for p in self.producedby[i])
         for o in _outputs:
             self.producedby[o] = [nodename]
             if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
+                newnode.nextnodes.extend(self.nodemap[c] for c in self.consumedby[o])
         self.nodemap[nodename] = newnode
 
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
@@ -836,20 +838,24 @@ class Graph():
         attr = onnx.helper.make_attribute('postop_count', count)
         newnode.attribute.append(attr)
 
+        graph_outputs = list(self.output)
         for name in nodes:
             self.remove_node(name)
+        self.output = graph_outputs
         newnode = create_node(newnode)
         newnode.input = _inputs
         newnode.output = _outputs
         for i in _inputs:
             if i in self.consumedby.keys():
                 self.consumedby[i].append(mainnode.name)
+            else:
+                self.consumedby[i] = [mainnode.name]
             if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
+                newnode.prevnodes.extend(self.nodemap[p] for p in self.producedby[i])
         for o in _outputs:
             self.producedby[o] = [mainnode.name]
             if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
+                newnode.nextnodes.extend(self.nodemap[c] for c in self.consumedby[o])
         self.nodemap[mainnode.name] = newnode
 
     def fuse_subgraph_iotensors(self, inputs: [], outputs: [], nodeop: str, name_prefix: str = None, keep_attr=True):
@@ -859,6 +865,8 @@ class Graph():
         pattern = FusionPattern(descs)
         nodesls = pattern.search_pattern(self)
         for i, nodes in enumerate(nodesls):
+            if any(name not in self.nodemap for name in nodes):
+                continue  # overlaps an occurrence that is fused already
             name = name_prefix + '_' + str(i) if name_prefix is not None else nodes[0]
             self.fuse_subgraph_node_names(nodes, nodeop, name, keep_attr)
 
@@ -1021,7 +1029,7 @@ class Graph():
                     continue
                 if remove_initials and output in self.initials:
                     continue
-                if output in self.consumedby:
+                if output in self.consumedby and output not in self.output:
                     consumers = self.consumedby[output]
                     inner = True
                     for consumer in consumers:
-- 
2.43.0


From db0f5a6769639137593f27aa0c7401178e04ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 05/75] fix: model_subgraph and model_opfusion call the graph
 API with the arguments it takes; parts list only their own inputs

---
 onnx_tool/__init__.py | 10 ++++++----
 onnx_tool/graph.py    |  9 ++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index b7d892a..62a73f6 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -11,7 +11,7 @@ from .model import Model
 from .node import NODE_REGISTRY, Node
 from .serialization import serialize_shape_engine, serialize_graph
 from .tensor import create_ndarray_f32, create_ndarray_int64
-from .utils import timer, VERSION
+from .utils import ModelConfig, timer, VERSION
 
 
 def loadmodel(f, mcfg={}):
@@ -176,7 +176,7 @@ def model_subgraph(m, in_tensor_names: [str] = None, out_tensor_names: [str] = N
         graph_lvl2.save_model(os.path.join(save_folder, model.modelname + '_level2.onnx'), rawmodel=model.mproto)
     if nodenames is not None:
         rawgraph = graph.get_onnxgraph_by_nodenames(nodenames)
-        subgraph = Graph(rawgraph)
+        subgraph = Graph(rawgraph, ModelConfig())
         subgraph.save_model(os.path.join(save_folder, model.modelname + '_subgraph.onnx'), rawmodel=model.mproto)
 
 
@@ -185,9 +185,11 @@ def model_opfusion(m, op_type: str, op_name: str, save_file: str, in_tensor_name
     model = loadmodel(m)
     graph = model.graph
     if in_tensor_names is not None and out_tensor_names is not None:
-        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name=op_name,
+        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name_prefix=op_name,
                                       nodeop=op_type, keep_attr=keep_attr)
+        graph.graph_reorder_nodes()
         model.save_model(save_file)
     if nodenames is not None:
-        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, name=op_name, keep_attr=keep_attr)
+        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, nodename=op_name, keep_attr=keep_attr)
+        graph.graph_reorder_nodes()
         model.save_model(save_file)
diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 15c76e7..78ca691 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -618,9 +618,9 @@ class Graph():
     def get_subgraph(self, inputs: [], outputs: []):
         graph_level0, graph_level1, graph_level2 = self.__get_subnodes_byio__(inputs, outputs)
 
-        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0))
-        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1))
-        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2))
+        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0), ModelConfig())
+        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1), ModelConfig())
+        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2), ModelConfig())
 
         group_outputs = [graph_level0.output, graph_level1.output, graph_level2.output]
         group_inputs = [graph_level0.input, graph_level1.input, graph_level2.input]
@@ -920,9 +920,12 @@ class Graph():
             else:
                 inputs.append(onnx.helper.make_tensor_value_info(name, 1, None))
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
+        used_names = {i for nodename in nodenames for i in self.nodemap[nodename].input}
         for name in self.initials:
             if name in initializer_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
+            if name not in used_names:
+                continue
             if name in self.tensormap:
                 proto = self.tensormap[name].make_value_proto(make_dummy=True)
                 if proto is not None:
-- 
2.43.0


From 0c9ef099e7725cf5a7b2f94b1643db8fe66817eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 06/75] fix: nodes with equal, empty or colliding names are all
 kept when loading a model

---
 onnx_tool/graph.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 78ca691..e36a043 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -427,10 +427,19 @@ class Graph():
         for n in remove_list:
             self.remove_node(n)
 
+    def __name_node__(self, node, generate, reserved=()):
+        # nodes are addressed by name, so every node needs one of its own
+        if generate:
+            node.name = node.op_type + '_' + str(self.node_count)
+        if node.name in self.nodemap or (generate and node.name in reserved):
+            base, count = node.name, 1
+            while node.name in self.nodemap or node.name in reserved:
+                node.name = base + '_' + str(count)
+                count += 1
+
     def __add_node_from_proto__(self, node_proto):
         newnode = create_node(node_proto)
-        if len(newnode.name) == 0:
-            newnode.name = newnode.op_type + '_' + str(self.node_count)
+        self.__name_node__(newnode, len(newnode.name) == 0)
         self.node_count += 1
         for tensor in node_proto.input:
             if tensor == '':
@@ -461,10 +470,11 @@ class Graph():
 
         tm = timer()
         tm.start()
+        given_names = {node.name for node in g.node}
         for node in g.node:
             newnode = create_node(node)
-            if noderename or len(newnode.name) == 0:
-                newnode.name = newnode.op_type + '_' + str(self.node_count)
+            self.__name_node__(newnode, noderename or len(newnode.name) == 0,
+                               () if noderename else given_names)
             self.node_count += 1
             for tensor in node.input:
                 if tensor == '':
-- 
2.43.0


From 67fb833215f3f6951a33c17966268c8a4f117c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 07/75] fix: skip_node of a node that cannot be bridged keeps
 the tensor relations consistent

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index e36a043..4c45224 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -780,7 +780,7 @@ class Graph():
             if oldname in self.dynamics:
                 self.dynamics.remove(oldname)
             return
-        self.nodemap.pop(nodename)
+        self.remove_node(nodename)
 
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
-- 
2.43.0


From 2d59d2dc98717d11eb167965eb5dea0a289c362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 08/75] fix: the compute graph keeps shape work that is also
 data, leaves its source graph alone and lists activations once

---
 onnx_tool/graph.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 4c45224..b4d0430 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -56,6 +56,14 @@ def _contains_shape_tensor(n):
     return shape_tensors
 
 
+def _data_inputs(n):
+    shape_tensors = _contains_shape_tensor(n)
+    data = list(n.input)
+    for tensor in shape_tensors:
+        data.remove(tensor)
+    return data
+
+
 class ValueExpr():
     def __init__(self, srcrange: [], dstrange: []):
         self.alpha = 1
@@ -1438,6 +1446,12 @@ class Graph():
 
     def get_compute_graph(self):
         cg = copy.copy(self)
+        # the extracted graph has its own structure, this one stays as it is
+        cg.nodemap = dict(self.nodemap)
+        cg.input = list(self.input)
+        cg.output = list(self.output)
+        cg.producedby = {key: list(val) for key, val in self.producedby.items()}
+        cg.consumedby = {key: list(val) for key, val in self.consumedby.items()}
         nodes = []
         rmnodes = []
         for key in cg.nodemap.keys():
@@ -1471,6 +1485,18 @@ class Graph():
                                 searchnodes.append(pnodename)
                 continue
             nodes.append(node.name)
+        # what a remaining node uses as data or what is a graph output is no shape work
+        rmset = set(rmnodes)
+        needed = list(self.output)
+        for key in cg.nodemap.keys():
+            if key not in rmset:
+                needed.extend(_data_inputs(cg.nodemap[key]))
+        while len(needed):
+            for producer in self.producedby.get(needed.pop(), []):
+                if producer in rmset:
+                    rmset.remove(producer)
+                    needed.extend(_data_inputs(cg.nodemap[producer]))
+        rmnodes = [key for key in rmnodes if key in rmset]
         self.log(f'Total Nodes:{len(cg.nodemap)} Removed Shape Nodes:{len(rmnodes)}')
         for key in rmnodes:
             cg.remove_node(key)
@@ -1481,7 +1507,7 @@ class Graph():
         cg.dynamics.extend(cg.output)
         for name in cg.nodemap.keys():
             for output in cg.nodemap[name].output:
-                if name not in cg.dynamics:
+                if output != '' and output not in cg.dynamics:
                     cg.dynamics.append(output)
 
         return cg
-- 
2.43.0


From 1494c7778c8517c797b7bf2f13b448be6fac6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 09/75] fix: pattern search demands every connection of the
 pattern and backtracks over all neighbours

---
 onnx_tool/fusion.py | 184 ++++++++++++++------------------------------
 1 file changed, 56 insertions(+), 128 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index bdf20e5..8976cbf 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -116,7 +116,7 @@ MHAint8_Pattern = [
         'op': 'QuantizeLinear',
         'attrs': [
         ],
-        'inport': [[0, 'Add_0', 0]],
+        'inport': [[0, 'Softmax_0', 0]],
         'outport': [[0, 'MatMul_1', 0]],
     },
     {
@@ -233,7 +233,8 @@ class AttrExpr():
             if self.idx == -1:
                 return self.logical(x.__getattribute__(self.attrname))
             else:
-                return self.logical(x.__getattribute__(self.attrname)[self.idx])
+                value = x.__getattribute__(self.attrname)
+                return self.idx < len(value) and self.logical(value[self.idx])
         return False
 
     def logical(self, attr):
@@ -311,131 +312,59 @@ class FusionPattern():
         for desc in nodedescs:
             self.nodedesc[desc['name']] = NodeCondition(desc)
 
-    def search_node(self, nodepair, graph, searched):
-        curdescname = nodepair[0]
-        curnodename = nodepair[1]
-
-        desc = self.nodedesc[curdescname]
-        node = graph.nodemap[curnodename]
-        searched.append(curnodename)
-
-        # expand in nodes
-        invalid = False if len(desc.inport) > 0 else True
-        uppaths = []
-        for inset in desc.inport:
-            inidx = inset[0]
-            indesckey = inset[1]
-            prev_outidx = inset[2]
-            nextdesc = self.nodedesc[indesckey]
-            if inidx == -1:
-                for tname in node.input:
-                    if tname not in graph.producedby:
-                        continue
-                    producer_node = graph.producedby[tname]
-                    for nodename in producer_node:
-                        nodeobject = graph.nodemap[nodename]
-                        if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                    if invalid:
-                                        uppaths.append(uppath)
-                                        break
-                                else:
-                                    invalid = True
-                            else:
-                                invalid = False
-                        else:
-                            invalid = False
-            elif inidx < len(node.input):
-                tname = node.input[inidx]
-                producer_node = graph.producedby[tname]
-                for nodename in producer_node:
-                    nodeobject = graph.nodemap[nodename]
-                    if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                        if nextdesc.is_node(nodeobject):
-                            if nodename not in searched:
-                                invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                if invalid:
-                                    uppaths.append(uppath)
-                                    break
-                            else:
-                                invalid = True
-                        else:
-                            invalid = False
-                    else:
-                        invalid = False
-
-        if not invalid:
-            searched.remove(curnodename)
-            return False, None
-        outpath = []
-        for uppath in uppaths:
-            if uppath is not None:
-                for v in uppath:
-                    outpath.append(v)
-        outpath.append(nodepair)
-
-        outvalid = False if len(desc.outport) > 0 else True
-        downpaths = []
-        for outset in desc.outport:
-            outidx = outset[0]
-            outdescky = outset[1]
-            next_inidx = outset[2]
-            nextdesc = self.nodedesc[outdescky]
-            if outidx == -1:
-                for output in node.output:
-                    if outvalid:
-                        break
-                    if output in graph.consumedby:
-                        consumed_nodes = graph.consumedby[output]
-                        if self.append_fusion and len(consumed_nodes) > 1:
-                            # inpalce_fusion the consumer op will be appended to this op as postop
-                            # it requires that the output of this op is consumed by next op only
-                            continue
-                        for nodename in consumed_nodes:
-                            nodeobject = graph.nodemap[nodename]
-                            if next_inidx == -1 or nodeobject.input.index(output) == next_inidx:
-                                if nextdesc.is_node(nodeobject):
-                                    if nodename not in searched:
-                                        outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                        if outvalid:
-                                            downpaths.append(downpath)
-                                            break
-                                    else:
-                                        outvalid = True
-
-
-            elif outidx < len(node.output):
-                tname = node.output[outidx]
-                if tname in graph.consumedby:
-                    consumed_nodes = graph.consumedby[tname]
-                    if self.append_fusion and len(consumed_nodes) > 1:
-                        # inpalce_fusion the consumer op will be appended to this op as postop
-                        # it requires that the output of this op is consumed by next op only
-                        continue
-                    for nodename in consumed_nodes:
-                        nodeobject = graph.nodemap[nodename]
-                        if next_inidx == -1 or nodeobject.input.index(tname) == next_inidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                    if outvalid:
-                                        downpaths.append(downpath)
-                                        break
-                                else:
-                                    outvalid = True
-                                    break
-
-        if outvalid:
-            for downpath in downpaths:
-                if downpath is not None:
-                    for v in downpath:
-                        outpath.append(v)
-            return True, outpath
+    def connected(self, edge, bound, graph):
+        prevkey, outidx, nextkey, inidx = edge
+        prevnode = graph.nodemap[bound[prevkey]]
+        nextnode = graph.nodemap[bound[nextkey]]
+        for i, tname in enumerate(nextnode.input):
+            if tname == '' or (inidx != -1 and i != inidx):
+                continue
+            for o, oname in enumerate(prevnode.output):
+                if oname != tname or (outidx != -1 and o != outidx):
+                    continue
+                if self.append_fusion and (len(graph.consumedby[tname]) > 1 or tname in graph.output):
+                    # inpalce_fusion the consumer op will be appended to this op as postop
+                    # it requires that the output of this op is consumed by next op only
+                    continue
+                return True
+        return False
+
+    def bind(self, edges, bound, graph):
+        # bind the remaining descriptions so that every connection of the pattern exists
+        for edge in edges:
+            if edge[0] in bound or edge[2] in bound:
+                break
         else:
-            searched.remove(curnodename)
-            return False, None
+            return len(edges) == 0 and len(bound) == len(self.nodedesc)
+        rest = [e for e in edges if e is not edge]
+        if edge[0] in bound and edge[2] in bound:
+            return self.connected(edge, bound, graph) and self.bind(rest, bound, graph)
+        if edge[0] in bound:
+            newkey = edge[2]
+            tensors, relation = graph.nodemap[bound[edge[0]]].output, graph.consumedby
+        else:
+            newkey = edge[0]
+            tensors, relation = graph.nodemap[bound[edge[2]]].input, graph.producedby
+        for tname in tensors:
+            for nodename in relation.get(tname, []):
+                if nodename in bound.values() or not self.nodedesc[newkey].is_node(graph.nodemap[nodename]):
+                    continue
+                bound[newkey] = nodename
+                if self.connected(edge, bound, graph) and self.bind(rest, bound, graph):
+                    return True
+                bound.pop(newkey)
+        return False
+
+    def search_node(self, nodepair, graph):
+        edges = []
+        for key, desc in self.nodedesc.items():
+            for outidx, nextkey, inidx in desc.outport:
+                edges.append((key, outidx, nextkey, inidx))
+            for inidx, prevkey, outidx in desc.inport:
+                edges.append((prevkey, outidx, key, inidx))
+        bound = {nodepair[0]: nodepair[1]}
+        valid = self.bind(list(dict.fromkeys(edges)), bound, graph)
+        return valid, list(bound.items())
 
     def search_pattern(self, graph: Graph):
         ls_nodes = []
@@ -447,8 +376,7 @@ class FusionPattern():
                 continue
             node = graph.nodemap[name]
             if first_desc.is_node(node):
-                searched = []
-                valid, path = self.search_node((self.first_key, name), graph, searched)
+                valid, path = self.search_node((self.first_key, name), graph)
                 if valid:
                     desckeys = list(self.nodedesc.keys())
                     nodes = ['a'] * len(desckeys)
-- 
2.43.0


From dedc630b5c2f992a39fdff8f9a3775d3eea95f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 10/75] fix: element-wise operators compute and broadcast as
 defined (Min, Div, Mod, Softmax, HardSigmoid, HardSwish, LeakyRelu, Sum,
 Round, Clip, Dropout)

---
 onnx_tool/node.py | 59 +++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1a7b996..216aa7d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -308,7 +308,7 @@ class MinNode(NpMathBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-            result = not numpy.minimum(result, intensors[i].get_numpy())
+            result = numpy.minimum(result, intensors[i].get_numpy())
         outtensors[0].update_tensor(result)
 
 
@@ -338,13 +338,14 @@ class DivNode(NpMathBase):
         self.op_mac = DIV_MACS
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[0].dtype == intensors[1].dtype:
-            if intensors[0].dtype in [numpy.int64]:
-                result = intensors[0].get_numpy() // intensors[1].get_numpy()
-            else:
-                result = intensors[0].get_numpy() / intensors[1].get_numpy()
+        x = intensors[0].get_numpy()
+        y = intensors[1].get_numpy()
+        if numpy.issubdtype(x.dtype, numpy.integer) and numpy.issubdtype(y.dtype, numpy.integer):
+            # integer division truncates towards zero
+            result = x // y
+            result = result + ((result < 0) & (result * y != x)).astype(result.dtype)
         else:
-            result = intensors[0].get_numpy() / intensors[1].get_numpy()
+            result = x / y
         outtensors[0].update_tensor(result)
 
 
@@ -353,9 +354,11 @@ class ModNode(NpMathBase):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
+        self.add_default_value('fmod', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.mod(intensors[0].get_numpy(), intensors[1].get_numpy())
+        mod = numpy.fmod if self.fmod else numpy.mod
+        result = mod(intensors[0].get_numpy(), intensors[1].get_numpy())
         outtensors[0].update_tensor(result)
 
 
@@ -406,6 +409,7 @@ class SoftmaxNode(ExpNode):
         super().__init__(node_proto)
         self.op_mac = EXP_MACS + DIV_MACS
         self.ratio = 1
+        self.add_default_value('axis', -1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xexp = numpy.exp(intensors[0].get_numpy())
@@ -587,7 +591,8 @@ class HardSigmoidNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        x = intensors[0].get_numpy()
+        result = numpy.clip(self.alpha * x + self.beta, 0, 1).astype(x.dtype)
         outtensors[0].update_tensor(result)
 
 
@@ -600,7 +605,8 @@ class HardSwishNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = intensors[0].get_numpy() * max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        x = intensors[0].get_numpy()
+        result = (x * numpy.clip(self.alpha * x + self.beta, 0, 1)).astype(x.dtype)
         outtensors[0].update_tensor(result)
 
 
@@ -708,15 +714,12 @@ class LeakyReluNode(PWNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        outtensor = numpy.zeros_like(x)
-        for i in numpy.ndindex(x.shape):
-            x = x[i]
-            outtensor[i] = x if x >= 0 else x * self.alpha
+        outtensor = numpy.where(x >= 0, x, x * self.alpha).astype(x.dtype)
         outtensors[0].update_tensor(outtensor)
 
 
 @NODE_REGISTRY.register()
-class SumNode(PWNode):
+class SumNode(NpMathBase):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.op_mac = ADD_MACS
@@ -784,6 +787,10 @@ class LessOrEqualNode(LessNode):
 
 @NODE_REGISTRY.register()
 class RoundNode(LessNode):
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        outtensors[0].update_shape(intensors[0].get_shape())
+        outtensors[0].update_dtype(intensors[0].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = numpy.round(intensors[0].get_numpy())
         outtensors[0].update_tensor(result)
@@ -988,15 +995,17 @@ class ClipNode(PWNode):
         self.ratio = 1
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[1].name == '':
-            minval = None
-        else:
+        # the bounds are optional inputs (attributes before opset 11)
+        minval = getattr(self, 'min', None)
+        maxval = getattr(self, 'max', None)
+        if len(intensors) > 1 and intensors[1].name != '':
             minval = intensors[1].get_numpy()
-        if intensors[2].name == '':
-            maxval = None
-        else:
+        if len(intensors) > 2 and intensors[2].name != '':
             maxval = intensors[2].get_numpy()
-        y = numpy.clip(intensors[0].get_numpy(), minval, maxval)
+        x = intensors[0].get_numpy()
+        # a lower bound above the upper one gives the upper one
+        y = x if minval is None else numpy.maximum(x, minval)
+        y = (y if maxval is None else numpy.minimum(y, maxval)).astype(x.dtype)
         outtensors[0].update_tensor(y)
 
 
@@ -1498,6 +1507,12 @@ class DropoutNode(FusedBase):
             outtensors[1].update_shape(intensors[0].get_shape())
             outtensors[1].update_dtype(numpy.bool_)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        x = intensors[0].get_numpy()
+        outtensors[0].update_tensor(x)
+        if len(outtensors) == 2:
+            outtensors[1].update_tensor(numpy.ones(x.shape, dtype=numpy.bool_))
+
 
 @NODE_REGISTRY.register()
 class GlobalAveragePoolNode(Node):
-- 
2.43.0


From 8b5f96f11b0fd31d3b7e89f0b71b0c1116582f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 11/75] fix: matrix products broadcast batch dimensions, take
 vectors and refuse mismatched sizes; Gemm applies alpha and beta; integer
 products subtract zero points

---
 onnx_tool/node.py | 68 +++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 216aa7d..0f7a4e4 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -162,6 +162,22 @@ def _broadcast_shape(shapes: []):
     return outshape
 
 
+def _matmul_output_shape(a_shape, b_shape):
+    # as numpy.matmul: a vector is promoted to a matrix, and its extra dimension dropped from the result
+    if len(a_shape) == 0 or len(b_shape) == 0:
+        raise RuntimeError('MatMul inputs must have rank >= 1')
+    a = [1] + list(a_shape) if len(a_shape) == 1 else list(a_shape)
+    b = list(b_shape) + [1] if len(b_shape) == 1 else list(b_shape)
+    if a[-1] != b[-2]:
+        raise RuntimeError(f'Incompatible MatMul shapes: A K={a[-1]} != B K={b[-2]}')
+    yshape = _broadcast_shape([a[:-2], b[:-2]])
+    if len(a_shape) > 1:
+        yshape.append(a[-2])
+    if len(b_shape) > 1:
+        yshape.append(b[-1])
+    return yshape
+
+
 class TmpNodeProto:
     def __init__(self, name, op_type, attributes):
         self.name = name
@@ -866,13 +882,15 @@ class GemmNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('transA', 0)
         self.add_default_value('transB', 0)
+        self.add_default_value('alpha', 1.0)
+        self.add_default_value('beta', 1.0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
         b_shape = intensors[1].get_shape()
-        if len(a_shape) < 2 or len(b_shape) < 2:
-            raise RuntimeError('Gemm inputs must have rank >= 2')
         if self.__class__ == GemmNode:
+            if len(a_shape) < 2 or len(b_shape) < 2:
+                raise RuntimeError('Gemm inputs must have rank >= 2')
             # determine M,K from A depending on transA
             if self.transA > 0:
                 a_m = a_shape[-1]
@@ -891,20 +909,15 @@ class GemmNode(Node):
                 raise RuntimeError(f'Incompatible GEMM shapes: A K={a_k} != B K={b_k}')
             a_batch = a_shape[:-2]
             b_batch = b_shape[:-2]
-            batchshape = a_batch if volume(a_batch) >= volume(b_batch) else b_batch
-            yshape = batchshape + [a_m, b_n]
+            yshape = _broadcast_shape([a_batch, b_batch]) + [a_m, b_n]
         else:
             # broadcast support for MatMul-like nodes
-            batchshape = a_shape[:-2] if volume(a_shape[:-2]) >= volume(b_shape[:-2]) else b_shape[:-2]
-            yshape = batchshape + [a_shape[-2], b_shape[-1]]
+            yshape = _matmul_output_shape(a_shape, b_shape)
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.__class__ == MatMulNode:
-            ashape = intensors[0].get_shape()
-            bshape = intensors[1].get_shape()
-            assert (ashape[-1] == bshape[-2])
             result = numpy.matmul(intensors[0].get_numpy(), intensors[1].get_numpy())
             outtensors[0].update_tensor(result)
             return
@@ -915,8 +928,13 @@ class GemmNode(Node):
         if self.transB > 0:
             B = numpy.swapaxes(B, -1, -2)
         C = numpy.matmul(A, B)
-        if len(intensors) > 2:
-            C = numpy.add(C, intensors[2].get_numpy())
+        if self.alpha != 1:
+            C = (C * self.alpha).astype(A.dtype)
+        if len(intensors) > 2 and intensors[2].name != '':
+            bias = intensors[2].get_numpy()
+            if self.beta != 1:
+                bias = (bias * self.beta).astype(A.dtype)
+            C = numpy.add(C, bias)
         outtensors[0].update_tensor(C)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2564,6 +2582,18 @@ class MatMulIntegerNode(GemmNode):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        operands = []
+        for i in range(2):
+            x = intensors[i].get_numpy().astype(numpy.int32)
+            if len(intensors) > i + 2 and intensors[i + 2].name != '':
+                zero_point = intensors[i + 2].get_numpy().astype(numpy.int32)
+                if i == 0 and zero_point.ndim == 1 and zero_point.size > 1:
+                    zero_point = zero_point.reshape((-1, 1))  # one per row
+                x = x - zero_point
+            operands.append(x)
+        outtensors[0].update_tensor(numpy.matmul(operands[0], operands[1]))
+
 
 @NODE_REGISTRY.register()
 class QLinearMatMulNode(GemmNode):
@@ -2576,20 +2606,12 @@ class QLinearMatMulNode(GemmNode):
         xshape = intensors[0].get_shape()
         wshape = intensors[3].get_shape()
 
-        if self.__class__ == GemmNode:
-            if self.transA is not None and self.transA > 0:
-                xshape = xshape[::-1]
-            else:
-                xshape = xshape
-            if self.transB is not None and self.transB > 0:
-                yshape = xshape[:-1] + [wshape[-2], ]
-            else:
-                yshape = xshape[:-1] + [wshape[-1], ]
-        else:
-            yshape = xshape[:-1] + [wshape[-1], ]
-        outtensors[0].update_shape(yshape)
+        outtensors[0].update_shape(_matmul_output_shape(xshape, wshape))
         outtensors[0].update_dtype(intensors[-1].dtype)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         weight_shape = intensors[3].get_shape()
-- 
2.43.0


From c8c995328226b0be3fc292b8b495364e6c421db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 12/75] fix: convolution and pooling shapes treat every spatial
 dimension with its own padding, dilation and auto_pad; MaxPool values and
 indices

---
 onnx_tool/node.py | 267 ++++++++++++++++------------------------------
 1 file changed, 91 insertions(+), 176 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0f7a4e4..f7c2609 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -45,15 +45,17 @@ _SHAPE_TENSORS = {
 
 
 def _conv_output_shape(xin, pad, ksize, stride, dilation):
-    return int((xin + pad - dilation * (ksize - 1) - 1) / stride + 1)
+    if xin + pad < dilation * (ksize - 1) + 1:
+        raise ValueError(f'kernel size {ksize} with dilation {dilation} exceeds padded size {xin + pad}')
+    return (xin + pad - dilation * (ksize - 1) - 1) // stride + 1
 
 
 def _convtranspose_output_shape(xin, output_padding, pad, ksize, stride, dilation):
     return stride * (xin - 1) + output_padding + ((ksize - 1) * dilation + 1) - pad
 
 
-def _auto_pad_valid_shape_calc(x, ksize, stride):
-    return math.ceil((x - ksize + 1) / stride)
+def _auto_pad_valid_shape_calc(x, ksize, stride, dilation=1):
+    return math.ceil((x - dilation * (ksize - 1)) / stride)
 
 
 def _auto_pad_same_shape_calc(x, stride):
@@ -67,6 +69,14 @@ def _pooling_shape_calc(inshape, pad, kshape, dilation, stride, ceilmode):
     return math.floor(outshape)
 
 
+def _auto_pad_begin(auto_pad, x, out, ksize, stride, dilation):
+    # padding in front of a spatial dimension for SAME_UPPER and SAME_LOWER
+    if auto_pad not in [b'SAME_LOWER', b'SAME_UPPER']:
+        return 0
+    total = max((out - 1) * stride + dilation * (ksize - 1) + 1 - x, 0)
+    return total // 2 if auto_pad == b'SAME_UPPER' else total - total // 2
+
+
 def _axes_neg2pos(len, axes):
     newaxes = []
     for axis in axes:
@@ -1418,57 +1428,30 @@ class PoolBase(Node):
         self.op_mac = CMP_MACS
         self.add_default_value('kernel_shape', (3, 3))
         self.add_default_value('ceil_mode', 0)
-        self.add_default_value('pads', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('auto_pad', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            outshape = inshape[:2]
+        outshape = inshape[:2]
+        rank = len(self.kernel_shape)
+        for i in range(rank):
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                outshape += (_auto_pad_same_shape_calc(inshape[2], self.strides[0]),)
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_same_shape_calc(inshape[3], self.strides[1]), ]
+                outshape += [_auto_pad_same_shape_calc(inshape[2 + i], self.strides[i]), ]
             elif self.auto_pad == b'VALID':
-                outshape += [_auto_pad_valid_shape_calc(inshape[2], self.kernel_shape[0], self.strides[0]), ]
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_valid_shape_calc(inshape[3], self.kernel_shape[1], self.strides[1]), ]
-        else:
-            if len(self.kernel_shape) == 1:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[1], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0], self.ceil_mode), ]
-            if len(self.kernel_shape) == 2:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[2], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[3], self.kernel_shape[1],
-                                        self.dilations[1],
-                                        self.strides[1],
-                                        self.ceil_mode),
-                ]
-            if len(self.kernel_shape) == 3:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[0], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[1], self.kernel_shape[1],
-                                        self.dilations[1],
-                                        self.strides[1],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[2], self.kernel_shape[2],
-                                        self.dilations[1],
-                                        self.strides[2],
-                                        self.ceil_mode),
-                ]
+                outshape += [_auto_pad_valid_shape_calc(inshape[2 + i], self.kernel_shape[i], self.strides[i],
+                                                        self.dilations[i]), ]
+            else:
+                outshape += [_pooling_shape_calc(inshape[2 + i], self.pads[i] + self.pads[i + rank],
+                                                 self.kernel_shape[i], self.dilations[i], self.strides[i],
+                                                 self.ceil_mode), ]
         outtensors[0].update_shape(outshape)
         outtensors[0].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            outtensors[1].update_shape(list(outshape))
+            outtensors[1].update_dtype(numpy.int64)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
@@ -1493,27 +1476,27 @@ class MaxPoolNode(PoolBase):
         self.op_mac = CMP_MACS
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
+        if len(outtensors) > 1:
+            raise NotImplementedError('MaxPool indices have no value_infer')
+        x = intensors[0].get_numpy()
         self.shape_infer(intensors, outtensors)
-        ot = outtensors[0].get_numpy()
+        outshape = tuple(outtensors[0].get_shape())
+        rank = len(self.kernel_shape)
+        begin = [_auto_pad_begin(self.auto_pad, x.shape[2 + i], outshape[2 + i], self.kernel_shape[i], self.strides[i],
+                                 self.dilations[i]) if self.auto_pad not in [None, b'NOTSET'] else self.pads[i]
+                 for i in range(rank)]
+        ot = numpy.zeros(outshape, dtype=x.dtype)
         for i in numpy.ndindex(ot.shape):
-            batch = i[0]
-            ocn = i[1]
-            oh = i[2]
-            ow = i[3]
-            t = ot[i]
-            ks = tuple(self.kernel_shape)
-            for j in numpy.ndindex(ks):
-                kh = j[0]
-                kw = j[1]
-                srch = oh * self.strides[0] + kh - self.pads[0]
-                srcw = ow * self.strides[1] + kw - self.pads[1]
-                if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
+            t = None
+            for j in numpy.ndindex(tuple(self.kernel_shape)):
+                src = tuple(i[2 + d] * self.strides[d] + j[d] * self.dilations[d] - begin[d] for d in range(rank))
+                if any(src[d] < 0 or src[d] >= x.shape[2 + d] for d in range(rank)):
                     continue
-                else:
-                    srcv = intensors[0].get_numpy()[batch, ocn, srch, srcw]
-                t = max(srcv, t)
-            ot[i] = t
+                srcv = x[i[:2] + src]
+                t = srcv if t is None else max(srcv, t)
+            if t is not None:
+                ot[i] = t
+        outtensors[0].update_tensor(ot)
 
 
 @NODE_REGISTRY.register()
@@ -2173,44 +2156,24 @@ class ConvNode(Node):
         self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('group', 1)
 
-    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        wshape = intensors[1].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
+    def _conv_shape(self, xshape, wshape):
+        if len(xshape) != len(wshape) or xshape[1] != wshape[1] * self.group:
+            raise ValueError(f'input {xshape} does not match weight {wshape} with {self.group} group(s)')
+        shape = [xshape[0], wshape[0]]
+        rank = len(xshape) - 2
+        for i in range(rank):
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = (xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0]))
-                if len(xshape) == 4:
-                    shape += (math.ceil(xshape[3] / self.strides[1]),)
+                shape.append(_auto_pad_same_shape_calc(xshape[2 + i], self.strides[i]))
             elif self.auto_pad == b'VALID':
-                oh = math.ceil((xshape[2] - wshape[2] + 1) / self.strides[0])
-                shape = (xshape[0], wshape[0], oh)
-                if len(xshape) == 4:
-                    ow = math.ceil((xshape[3] - wshape[3] + 1) / self.strides[1])
-                    shape += (ow,)
+                shape.append(_auto_pad_valid_shape_calc(xshape[2 + i], wshape[2 + i], self.strides[i],
+                                                        self.dilations[i]))
             else:
-                assert 0
+                shape.append(_conv_output_shape(xshape[2 + i], self.pads[i] + self.pads[i + rank], wshape[2 + i],
+                                                self.strides[i], self.dilations[i]))
+        return shape
 
-        else:
-            if len(xshape) == 5:
-                od = _conv_output_shape(xshape[2], self.pads[0] + self.pads[3], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                oh = _conv_output_shape(xshape[3], self.pads[1] + self.pads[4], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                ow = _conv_output_shape(xshape[4], self.pads[2] + self.pads[5], wshape[4], self.strides[2],
-                                        self.dilations[2])
-                shape = (xshape[0], wshape[0], od, oh, ow)
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = (xshape[0], wshape[0], oh, ow)
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = (xshape[0], wshape[0], oh)
-        outtensors[0].update_shape(shape)
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        outtensors[0].update_shape(self._conv_shape(intensors[0].get_shape(), intensors[1].get_shape()))
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2219,11 +2182,15 @@ class ConvNode(Node):
         self.shape_infer(intensors, outtensors)
         outshape = outtensors[0].get_shape()
         outtensor = outtensors[0].get_numpy()
-        has_bias = len(intensors) > 2
+        has_bias = len(intensors) > 2 and intensors[2].name != ''
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         if len(wshape) != 4:
             raise NotImplementedError()
+        padh, padw = self.pads[:2]
+        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
+            padh, padw = [_auto_pad_begin(self.auto_pad, xshape[2 + i], outshape[2 + i], wshape[2 + i],
+                                          self.strides[i], self.dilations[i]) for i in range(2)]
 
         reduce_shape = tuple(wshape[1:])
         for i in numpy.ndindex(tuple(outshape)):
@@ -2238,8 +2205,8 @@ class ConvNode(Node):
                 icn = j[0]
                 kh = j[1]
                 kw = j[2]
-                srch = oh * self.strides[0] + kh * self.dilations[0] - self.pads[0]
-                srcw = ow * self.strides[1] + kw * self.dilations[1] - self.pads[1]
+                srch = oh * self.strides[0] + kh * self.dilations[0] - padh
+                srcw = ow * self.strides[1] + kw * self.dilations[1] - padw
                 if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
                     srcv = 0
                 else:
@@ -2626,27 +2593,11 @@ class QLinearMatMulNode(GemmNode):
 @NODE_REGISTRY.register()
 class QLinearConvNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        wshape = intensors[3].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
-        outtensors[0].update_shape(shape)
-        outtensors[0].update_dtype(intensors[-2].dtype)
+        outtensors[0].update_shape(self._conv_shape(intensors[0].get_shape(), intensors[3].get_shape()))
+        outtensors[0].update_dtype(intensors[7].dtype)
+
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
@@ -2670,28 +2621,12 @@ class QLinearConvNode(ConvNode):
 @NODE_REGISTRY.register()
 class ConvIntegerNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        wshape = intensors[1].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
-        outtensors[0].update_shape(shape)
+        outtensors[0].update_shape(self._conv_shape(intensors[0].get_shape(), intensors[1].get_shape()))
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
@@ -2713,48 +2648,28 @@ class ConvIntegerNode(ConvNode):
 class ConvTransposeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('pads', (0, 0, 0, 0))
+        self.add_default_value('auto_pad', None)
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
         self.add_default_value('output_padding', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('output_shape', (0, 0))
         self.add_default_value('group', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        shape = []
-        outc = self.group * wshape[1]
-        if len(xshape) == 5:
-            od = _convtranspose_output_shape(xshape[2], self.output_padding[0], self.pads[0] + self.pads[3], wshape[2],
-                                             self.strides[0],
-                                             self.dilations[0])
-            ow = _convtranspose_output_shape(xshape[3], self.output_padding[1], self.pads[1] + self.pads[4], wshape[3],
-                                             self.strides[1],
-                                             self.dilations[1])
-            oh = _convtranspose_output_shape(xshape[4], self.output_padding[2], self.pads[2] + self.pads[5], wshape[4],
-                                             self.strides[2],
-                                             self.dilations[2])
-            shape = [xshape[0], outc, od, ow, oh]
+        shape = [xshape[0], self.group * wshape[1]]
+        rank = len(xshape) - 2
+        for i in range(rank):
             if volume(self.output_shape) != 0:
-                shape[2:] = self.output_shape
-        if len(xshape) == 4:
-            ow = _convtranspose_output_shape(xshape[2], self.output_padding[0], self.pads[0] + self.pads[2], wshape[2],
-                                             self.strides[0],
-                                             self.dilations[0])
-            oh = _convtranspose_output_shape(xshape[3], self.output_padding[1], self.pads[1] + self.pads[3], wshape[3],
-                                             self.strides[1],
-                                             self.dilations[1])
-            shape = [xshape[0], outc, ow, oh]
-            if volume(self.output_shape) != 0:
-                shape[2:] = self.output_shape
-        elif len(xshape) == 3:
-            ow = _convtranspose_output_shape(xshape[2], self.output_padding[0], self.pads[0] + self.pads[1], wshape[2],
-                                             self.strides[0],
-                                             self.dilations[0])
-            shape = [xshape[0], outc, ow]
-            if volume(self.output_shape) != 0:
-                shape[2] = self.output_shape[0]
+                shape.append(self.output_shape[i])
+            elif self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
+                shape.append(xshape[2 + i] * self.strides[i])
+            else:
+                pad = 0 if self.auto_pad == b'VALID' else self.pads[i] + self.pads[i + rank]
+                shape.append(_convtranspose_output_shape(xshape[2 + i], self.output_padding[i], pad, wshape[2 + i],
+                                                         self.strides[i], self.dilations[i]))
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From ba026b4aae8193093cfa5c250a757b944462bda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 13/75] fix: shape operators follow their definition (Concat,
 OneHot, Squeeze, Unsqueeze, Shape, Expand, Flatten, TopK, RoiAlign, GatherND,
 ScatterND, GatherElements, ConstantOfShape, NonZero, LayerNormalization,
 QuantizeLinear, GRU, GlobalAveragePool)

---
 onnx_tool/node.py | 139 ++++++++++++++++++++++------------------------
 1 file changed, 67 insertions(+), 72 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f7c2609..83b5693 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1079,7 +1079,10 @@ class ConcatNode(Node):
         outshape = intensors[0].get_shape()
         for i in range(len(intensors) - 1):
             shape = intensors[i + 1].get_shape()
-            outshape[self.axis] += shape[self.axis]
+            axis = _axes_neg2pos(len(outshape), [self.axis])[0]
+            if len(shape) != len(outshape) or any(a != b for d, (a, b) in enumerate(zip(outshape, shape)) if d != axis):
+                raise ValueError(f'cannot concatenate shapes {outshape} and {shape} along axis {axis}')
+            outshape[axis] += shape[axis]
         outtensors[0].update_shape(outshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -1127,7 +1130,9 @@ def one_hot(indices, depth, axis=-1, dtype=numpy.float32):  # type: ignore
     ls = values.shape[0:axis]
     rs = values.shape[axis:rank]
     targets = numpy.reshape(depth_range, (1,) * len(ls) + depth_range.shape + (1,) * len(rs))
-    values = numpy.reshape(numpy.mod(values, depth), ls + (1,) + rs)
+    # indices in [-depth, -1] count from the end, any other index outside the range selects nothing
+    values = numpy.where(values < 0, values + depth, values)
+    values = numpy.reshape(values, ls + (1,) + rs)
     return numpy.asarray(targets == values, dtype=dtype)
 
 
@@ -1151,8 +1156,8 @@ class OneHotNode(Node):
         indices = intensors[0].get_numpy()
         depth = intensors[1].get_numpy()
         values = intensors[2].get_numpy()
-        y = one_hot(indices, depth, self.axis)
-        outtensors[0].update_tensor(y)
+        y = one_hot(indices, depth, self.axis, dtype=numpy.bool_)
+        outtensors[0].update_tensor(numpy.where(y, values[1], values[0]).astype(values.dtype))
 
 
 @NODE_REGISTRY.register()
@@ -1328,8 +1333,7 @@ class UnsqueezeNode(Node):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
-        for axis in axes:
-            outtensor = numpy.expand_dims(outtensor, axis=axis)
+        outtensor = numpy.expand_dims(outtensor, axis=tuple(int(axis) for axis in axes))
         outtensors[0].update_tensor(outtensor)
 
 
@@ -1337,16 +1341,25 @@ class UnsqueezeNode(Node):
 class SqueezeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axes', [0])
+        self.add_default_value('axes', None)
+
+    def _squeezed_axes(self, intensors: List[Tensor]):
+        inshape = intensors[0].get_shape()
+        axes = self.axes
+        if len(intensors) == 2 and intensors[1].name != '':
+            axes = intensors[1].get_numpy()
+        if axes is None:
+            return [i for i, v in enumerate(inshape) if v == 1]
+        return _axes_neg2pos(len(inshape), axes)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         outshape = []
-        if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        axes = _axes_neg2pos(len(inshape), self.axes)
+        axes = self._squeezed_axes(intensors)
         for i in range(len(inshape)):
             if i in axes:
+                if inshape[i] != 1:
+                    raise ValueError(f'cannot squeeze axis {i} of shape {inshape}')
                 continue
             else:
                 outshape.append(inshape[i])
@@ -1354,20 +1367,16 @@ class SqueezeNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensor = intensors[0].get_numpy().copy()
-        idx = 0
-        if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        for axis in self.axes:
-            outtensor = numpy.squeeze(outtensor, axis=axis - idx)
-            idx += 1
+        outtensor = intensors[0].get_numpy()
+        outtensor = numpy.squeeze(outtensor, axis=tuple(int(axis) for axis in self._squeezed_axes(intensors)))
         outtensors[0].update_tensor(outtensor)
 
 
 @NODE_REGISTRY.register()
 class ShapeNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        ret = numpy.array(intensors[0].get_shape(), dtype=numpy.int64)
+        shape = intensors[0].get_shape()[getattr(self, 'start', 0):getattr(self, 'end', None)]
+        ret = numpy.array(shape, dtype=numpy.int64)
         outtensors[0].update_tensor(ret)
 
 
@@ -1377,7 +1386,9 @@ class ResizeNode(Node):
         xshape = intensors[0].get_shape()
         roi = []
         sizes = []
-        if len(intensors) == 2:
+        if len(intensors) == 1:
+            scales = numpy.array(self.scales, dtype=numpy.float32)
+        elif len(intensors) == 2:
             scales = intensors[1].get_numpy()
         elif len(intensors) >= 3:
             roi = intensors[1].get_numpy()
@@ -1390,7 +1401,7 @@ class ResizeNode(Node):
             if len(sizes) == len(xshape):
                 newshape = sizes
             if len(sizes) == 2:
-                newshape = xshape[:2] + sizes
+                newshape = numpy.array(list(xshape[:2]) + list(sizes))
         else:
             if is_valid_ndarray(scales):
                 newshape = []
@@ -1527,16 +1538,7 @@ class GlobalAveragePoolNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        h = x.shape[2]
-        w = x.shape[3]
-        y = numpy.zeros(x.shape[:2], dtype=numpy.float32)
-        for i in numpy.ndindex(y.shape):
-            t = 0
-            for j in numpy.ndindex((h, w)):
-                xi = i + j
-                t += x[xi]
-            t /= (h * w)
-            y[i] = t
+        y = numpy.mean(x, axis=tuple(range(2, x.ndim)), keepdims=True)
         outtensors[0].update_tensor(y)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1553,25 +1555,7 @@ class ExpandNode(Node):
         expandshape = intensors[1].get_numpy().tolist()
         if not isinstance(expandshape, list):
             expandshape = [expandshape, ]
-        # Ensure both shapes have the same rank by prepending 1s to the shorter one.
-        xshape = list(xshape)
-        expandshape = list(expandshape)
-        if len(xshape) < len(expandshape):
-            xshape = [1] * (len(expandshape) - len(xshape)) + xshape
-        elif len(expandshape) < len(xshape):
-            expandshape = [1] * (len(xshape) - len(expandshape)) + expandshape
-
-        yshape = []
-        for x, e in zip(xshape, expandshape):
-            try:
-                xi = int(x)
-            except Exception:
-                xi = x
-            try:
-                ei = int(e)
-            except Exception:
-                ei = e
-            yshape.append(max(xi, ei))
+        yshape = _broadcast_shape([[int(x) for x in xshape], [int(e) for e in expandshape]])
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -1673,13 +1657,10 @@ class FlattenNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        if self.axis is None:
-            y = x.reshape((x.shape[0], -1))
-        else:
-            vol = 1
-            for i in range(self.axis):
-                vol *= x.shape[i]
-            y = x.reshape((vol, -1))
+        axis = 1 if self.axis is None else self.axis
+        if axis < 0:
+            axis += x.ndim
+        y = x.reshape((int(numpy.prod(x.shape[:axis])), int(numpy.prod(x.shape[axis:]))))
         outtensors[0].update_tensor(y)
 
 
@@ -2026,14 +2007,12 @@ class TopKNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         k = intensors[1].get_numpy()[0]
-        # when the input tensor only contain 1 dimension, the axis attribute (default: 0) may not appear in the node
-        if len(xshape) == 1 and self.axis is None:
-            self.axis = 0
-        axis = _axes_neg2pos(len(xshape), [self.axis])[0]
+        # the axis attribute may not appear in the node (default: the last axis)
+        axis = _axes_neg2pos(len(xshape), [-1 if self.axis is None else self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
             if i == axis:
-                newshape.append(k)
+                newshape.append(int(k))
             else:
                 newshape.append(xshape[i])
         outtensors[0].update_shape(newshape)
@@ -2267,12 +2246,16 @@ class CumSumNode(PWNode):
 
 @NODE_REGISTRY.register()
 class NonZeroNode(Node):
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        self.value_infer(intensors, outtensors)
+        if volume(outtensors[0].get_shape()) == 0:
+            # the values are not known here: take the largest possible result
+            condi = numpy.ones_like(intensors[0].get_numpy())
+            outtensors[0].update_tensor(numpy.array(numpy.nonzero(condi), dtype=numpy.int64))
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         condi = intensors[0].get_numpy()
         result = numpy.array(numpy.nonzero(condi), dtype=numpy.int64)
-        if volume(result.shape) == 0:
-            condi = numpy.ones_like(intensors[0].get_numpy())
-            result = numpy.array(numpy.nonzero(condi), dtype=numpy.int64)
         outtensors[0].update_tensor(result)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2303,6 +2286,8 @@ class FloorNode(FusedBase):
 class RoiAlignNode(Node):
     def __init__(self, node):
         super().__init__(node)
+        self.add_default_value('output_height', 1)
+        self.add_default_value('output_width', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
@@ -2414,7 +2399,8 @@ class ScatterNDNode(Node):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
         updates = intensors[2].get_numpy()
-        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates))
+        reduction = getattr(self, 'reduction', b'none').decode('utf-8')
+        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates, reduction))
 
 
 @NODE_REGISTRY.register()
@@ -2422,7 +2408,7 @@ class GatherNDNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data_shape = intensors[0].get_shape()
         indice_shape = intensors[1].get_shape()
-        batch_dims = 0
+        batch_dims = getattr(self, 'batch_dims', 0)
         # Note the data rank - will be reused multiple times later
         data_rank = len(data_shape)
 
@@ -2456,7 +2442,7 @@ class GatherNDNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
-        ret = gather_nd_impl(data, indices, 0)
+        ret = gather_nd_impl(data, indices, getattr(self, 'batch_dims', 0))
         outtensors[0].update_tensor(ret)
 
 
@@ -2521,6 +2507,12 @@ class LayerNormalizationNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
+        # optional outputs: mean and inverse standard deviation
+        xshape = intensors[0].get_shape()
+        axis = _axes_neg2pos(len(xshape), [self.axis])[0]
+        for tensor in outtensors[1:]:
+            tensor.update_shape(xshape[:axis] + [1] * (len(xshape) - axis))
+            tensor.update_dtype(numpy.float32)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         tshape = intensors[0].get_shape()
@@ -2540,7 +2532,8 @@ class QuantizeLinearNode(PWNode):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[2].dtype)
+        has_zero_point = len(intensors) > 2 and intensors[2].name != ''
+        outtensors[0].update_dtype(intensors[2].dtype if has_zero_point else numpy.uint8)
 
 
 @NODE_REGISTRY.register()
@@ -2740,7 +2733,7 @@ class GatherElementsNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         indice = intensors[1].get_numpy()
-        outtensor = numpy.zeros_like(indice)
+        outtensor = numpy.zeros(indice.shape, dtype=x.dtype)
         for i in numpy.ndindex(outtensor.shape):
             idx = list(i)
             idx[self.axis] = indice[i]
@@ -2760,8 +2753,9 @@ class GRUNode(Node):
         h_len = wshape[1] // 3
         outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
         outtensors[0].update_dtype(intensors[0].dtype)
-        outtensors[1].update_shape([num_dir, batch, h_len])
-        outtensors[1].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
@@ -2800,7 +2794,8 @@ class ConstantOfShapeNode(Node):
             outtensors[0].update_dtype(self.value.dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        arr = numpy.zeros(intensors[0].get_numpy(), dtype=self.value.dtype)
+        dtype = numpy.float32 if self.value is None else self.value.dtype
+        arr = numpy.zeros(intensors[0].get_numpy(), dtype=dtype)
         if self.value is not None and len(self.value) == 1:
             arr.fill(self.value[0])
         outtensors[0].update_tensor(arr)
-- 
2.43.0


From e03815d18a75e8dd6af174be22f401df935a8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 14/75] fix: Reduce*, Slice, Split, Pad and Einsum follow their
 definition (default and empty axes, axes inputs, uneven splits, negative
 pads, ellipsis position)

---
 onnx_tool/node.py | 344 ++++++++++++++++------------------------------
 1 file changed, 116 insertions(+), 228 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 83b5693..06315d9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1214,91 +1214,43 @@ class EinsumNode(Node):
                 if ch != '.' and all_labels.count(ch) == 1:
                     if ch not in unique_labels:
                         unique_labels.append(ch)
-            self.output_label_str = ''.join(sorted(unique_labels))
-
-    def _has_ellipsis(self, label_str):
-        return '...' in label_str
-
-    def _get_non_ellipsis_labels(self, label_str):
-        """Get the labels after the ellipsis part."""
-        if '...' in label_str:
-            idx = label_str.index('...')
-            return label_str[idx + 3:]
-        return label_str
-
-    def _get_ellipsis_ndim(self, label_str, total_ndim):
-        """Compute how many dimensions the ellipsis covers."""
-        non_ellipsis = self._get_non_ellipsis_labels(label_str)
-        return total_ndim - len(non_ellipsis)
+            # the ellipsis dimensions come first
+            ellipsis = '...' if '...' in lhs else ''
+            self.output_label_str = ellipsis + ''.join(sorted(unique_labels))
+
+    def _label_dims(self, intensors: List[Tensor]):
+        """Sizes of all labels and, as a list, of the dimensions the ellipsis covers (broadcast over the inputs)."""
+        label_to_dim = {}
+        ellipsis_dims_list = []
+        for label_str, tensor in zip(self.input_labels, intensors):
+            tshape = list(tensor.get_shape())
+            if '...' in label_str:
+                before, after = label_str.split('...')
+                ndim = len(tshape) - len(before) - len(after)
+                ellipsis_dims_list.append(tshape[len(before):len(before) + ndim])
+                tshape = tshape[:len(before)] + tshape[len(before) + ndim:]
+                label_str = before + after
+            if len(label_str) != len(tshape):
+                raise ValueError(f'labels {label_str} do not match shape {tensor.get_shape()}')
+            for ch, dim in zip(label_str, tshape):
+                label_to_dim[ch] = _broadcast_shape([[label_to_dim.get(ch, 1)], [dim]])[0]
+        return label_to_dim, _broadcast_shape(ellipsis_dims_list)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        label_to_dim, ellipsis_shape = self._label_dims(intensors)
         shape = []
-        # Map from label character -> list of dimension values across inputs
-        label_to_dims = {}
-        ellipsis_dims_list = []  # list of (ndim, shape_slice) for each input with ellipsis
-
-        for idx, tensor in enumerate(intensors):
-            label_str = self.input_labels[idx]
-            tshape = tensor.get_shape()
-            if self._has_ellipsis(label_str):
-                non_ellipsis = self._get_non_ellipsis_labels(label_str)
-                ellipsis_ndim = len(tshape) - len(non_ellipsis)
-                # Record ellipsis dimensions for broadcasting
-                ellipsis_dims_list.append(tshape[:ellipsis_ndim])
-                offset = ellipsis_ndim
-            else:
-                non_ellipsis = label_str
-                offset = 0
-
-            for i, ch in enumerate(non_ellipsis):
-                if ch == '.':
-                    continue
-                dim_val = tshape[offset + i]
-                if ch not in label_to_dims:
-                    label_to_dims[ch] = []
-                label_to_dims[ch].append(dim_val)
-
-        # Compute broadcast shape for ellipsis dimensions
-        ellipsis_shape = []
-        if ellipsis_dims_list:
-            max_ndim = max(len(d) for d in ellipsis_dims_list)
-            # Pad shorter ellipsis shapes with 1s on the left (broadcast semantics)
-            padded_shapes = []
-            for d in ellipsis_dims_list:
-                if len(d) < max_ndim:
-                    padded_shapes.append([1] * (max_ndim - len(d)) + list(d))
-                else:
-                    padded_shapes.append(list(d))
-            for dims in zip(*padded_shapes):
-                ellipsis_shape.append(max(dims))
-
-        # Build output shape: first ellipsis dims, then output labels
-        shape.extend(ellipsis_shape)
-
-        # For each output label, take the max across all inputs (broadcast)
-        for ch in self.output_label_str:
-            if ch == '.':
-                continue
-            if ch in label_to_dims:
-                shape.append(max(label_to_dims[ch]))
-            else:
-                # Label not found in any input (shouldn't happen in valid equations)
-                shape.append(1)
-
+        for i, part in enumerate(self.output_label_str.split('...')):
+            if i > 0:
+                shape.extend(ellipsis_shape)
+            shape.extend(label_to_dim[ch] for ch in part)
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        label_to_dim, ellipsis_shape = self._label_dims(intensors)
         macs = 1
-        map = {}
-        shape0 = intensors[0].get_shape()
-        shape1 = intensors[1].get_shape()
-        for i, v in enumerate(shape0):
-            map[self.input_labels[0].replace('.', '')[i]] = v
-        for i, v in enumerate(shape1):
-            map[self.input_labels[1].replace('.', '')[i]] = v
-        for key in map.keys():
-            macs *= map[key]
+        for dim in list(label_to_dim.values()) + ellipsis_shape:
+            macs *= dim
         return macs
 
 
@@ -1572,35 +1524,37 @@ class PadNode(Node):
         self.add_default_value('value', 0)
         self.add_default_value('mode', 'constant')
 
+    def _pad_width(self, intensors: List[Tensor]):
+        # (front, back) of every dimension; padding may be negative
+        rank = len(intensors[0].get_shape())
+        pads = self.pads if self.pads is not None else intensors[1].get_numpy()
+        axes = range(rank)
+        if len(intensors) > 3 and intensors[3].name != '':
+            axes = _axes_neg2pos(rank, intensors[3].get_numpy())
+        width = [(0, 0)] * rank
+        for i, axis in enumerate(axes):
+            width[axis] = (int(pads[i]), int(pads[i + len(axes)]))
+        return width
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
-        newshape = []
-        if self.pads is None:
-            if len(intensors) > 1:
-                pads = intensors[1].get_numpy()
-                for i, v in enumerate(inshape):
-                    newshape.append(v + pads[i] + pads[i + len(inshape)])
-        else:
-            for i, v in enumerate(inshape):
-                newshape.append(v + self.pads[i] + self.pads[i + len(inshape)])
-        newshape = [int(val) for val in newshape]
+        newshape = [int(v + front + back) for v, (front, back) in zip(inshape, self._pad_width(intensors))]
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if self.pads is not None:
-            pads = self.pads
-        elif len(intensors) > 1:
-            pads = intensors[1].get_numpy()
-        nrank = len(pads) // 2
-        start = pads[:nrank].reshape(nrank, 1)
-        end = pads[nrank:].reshape(nrank, 1)
-        pad_width = numpy.concatenate([start, end], axis=-1)
+        data = intensors[0].get_numpy()
+        width = self._pad_width(intensors)
         value = self.value
-        if len(intensors) > 2:
+        if len(intensors) > 2 and intensors[2].name != '':
             value = intensors[2].get_numpy()
-        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=self.mode.decode("utf-8"),
-                              constant_values=value)
+        mode = self.mode.decode("utf-8") if isinstance(self.mode, bytes) else self.mode
+        data = data[tuple(slice(max(-front, 0), v - max(-back, 0)) for v, (front, back) in zip(data.shape, width))]
+        width = [(max(front, 0), max(back, 0)) for front, back in width]
+        if mode == 'constant':
+            outtensor = numpy.pad(data, pad_width=width, mode=mode, constant_values=numpy.asarray(value).reshape(()))
+        else:
+            outtensor = numpy.pad(data, pad_width=width, mode=mode)
         outtensors[0].update_tensor(outtensor)
 
 
@@ -1703,10 +1657,10 @@ class ZipMapNode(Node):
 class SliceNode(Node):
     def __init__(self, n):
         super(SliceNode, self).__init__(n)
+        self.add_default_value('axes', None)
         self.add_default_value('steps', None)
 
-    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        inshape = intensors[0].get_shape()
+    def _slice_arguments(self, intensors: List[Tensor]):
         # Prepare inputs (from attributes or input tensors)
         if len(intensors) == 1:
             starts = list(self.starts)
@@ -1718,25 +1672,26 @@ class SliceNode(Node):
             ends = list(intensors[2].get_numpy())
             axes = None
             steps = None
-            if len(intensors) == 3:
-                # fallback behaviour when axes/steps omitted
-                axes = None
-            else:
-                if len(intensors) >= 4:
-                    axes = list(intensors[3].get_numpy())
-                if len(intensors) >= 5:
-                    steps = list(intensors[4].get_numpy())
+            if len(intensors) >= 4 and intensors[3].name != '':
+                axes = list(intensors[3].get_numpy())
+            if len(intensors) >= 5 and intensors[4].name != '':
+                steps = list(intensors[4].get_numpy())
 
-        r = len(inshape)
-        # If axes omitted, set to [0..r-1]
+        # If axes omitted, set to [0..len(starts)-1]
         if axes is None:
-            axes = list(range(r))
+            axes = list(range(len(starts)))
         # Normalize negative axes
-        axes = _axes_neg2pos(r, list(axes))
+        axes = _axes_neg2pos(len(intensors[0].get_shape()), list(axes))
 
         # If steps omitted, set to 1s of length len(starts)
         if steps is None:
             steps = [1] * len(starts)
+        return starts, ends, axes, steps
+
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        inshape = intensors[0].get_shape()
+        starts, ends, axes, steps = self._slice_arguments(intensors)
+        r = len(inshape)
 
         # Initialize effective arrays
         eff_start = [0] * r
@@ -1810,6 +1765,8 @@ class SliceNode(Node):
             if not isinstance(dim, int):
                 newshape[i] = None
                 continue
+            if dim == 0:
+                continue
 
             # Compute span depending on sign of step
             try:
@@ -1841,63 +1798,15 @@ class SliceNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        datashape = intensors[0].get_shape()
-        if len(intensors) == 3:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            x = data[starts[0]:ends[0]]
-        if len(intensors) == 4:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index], ...]
-                index += 1
-        if len(intensors) == 5:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            steps = intensors[4].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index]:steps[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index]:steps[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index]:steps[index], ...]
-                index += 1
-        if len(intensors) == 1:
-            index = 0
-            x = data.copy()
-            for i in self.axes:
-                if i == 0:
-                    x = x[self.starts[index]:self.ends[index], ...]
-                if i == 1:
-                    x = x[:, self.starts[index]:self.ends[index], ...]
-                if i == 2:
-                    x = x[:, :, self.starts[index]:self.ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, self.starts[index]:self.ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, self.starts[index]:self.ends[index], ...]
-                index += 1
+        starts, ends, axes, steps = self._slice_arguments(intensors)
+        index = [slice(None)] * data.ndim
+        for start, end, axis, step in zip(starts, ends, axes, steps):
+            start = int(start)
+            if step < 0:
+                # a start before the first element is clamped to it
+                start = max(start, -data.shape[axis])
+            index[axis] = slice(start, int(end), int(step))
+        x = data[tuple(index)]
         outtensors[0].update_tensor(x)
 
 
@@ -1908,17 +1817,22 @@ class ReduceMeanNode(Node):
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
 
+        self.add_default_value('noop_with_empty_axes', 0)
+
+    def _reduced_axes(self, intensors: List[Tensor]):
+        rank = len(intensors[0].get_shape())
+        axes = self.axes
+        if len(intensors) == 2 and intensors[1].name != '':
+            axes = intensors[1].get_numpy()
+        if axes is None or len(axes) == 0:
+            # no axes: reduce over all of them, unless asked for the identity
+            return () if self.noop_with_empty_axes else tuple(range(rank))
+        return tuple(int(axis) for axis in _axes_neg2pos(rank, axes))
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         yshape = []
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        if axes is None:
-            return [[1]]
-        else:
-            axes = _axes_neg2pos(len(xshape), axes)
+        axes = self._reduced_axes(intensors)
 
         for i in range(len(xshape)):
             if i in axes:
@@ -1930,12 +1844,10 @@ class ReduceMeanNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
-        outtensors[0].update_tensor(reduced)
+        axes = self._reduced_axes(intensors)
+        data = intensors[0].get_numpy()
+        reduced = numpy.mean(data, axis=axes, keepdims=self.keepdims == 1)
+        outtensors[0].update_tensor(reduced.astype(data.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         vol = volume(intensors[0].get_shape())
@@ -1945,11 +1857,9 @@ class ReduceMeanNode(Node):
 @NODE_REGISTRY.register()
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        axes = self._reduced_axes(intensors)
+        data = intensors[0].get_numpy()
+        reduced = numpy.prod(data, axis=axes, dtype=data.dtype, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1961,11 +1871,9 @@ class ReduceProdNode(ReduceMeanNode):
 @NODE_REGISTRY.register()
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
-        reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        axes = self._reduced_axes(intensors)
+        data = intensors[0].get_numpy()
+        reduced = numpy.sum(data, axis=axes, dtype=data.dtype, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
 
@@ -1973,10 +1881,7 @@ class ReduceSumNode(ReduceMeanNode):
 class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self._reduced_axes(intensors)
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1990,10 +1895,7 @@ class ReduceMinNode(ReduceMeanNode):
 class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self._reduced_axes(intensors)
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2210,17 +2112,12 @@ class ConvNode(Node):
 
 
 @NODE_REGISTRY.register()
-class ReduceL2Node(Node):
-    def __init__(self, nodeproto):
-        super().__init__(nodeproto)
-        self.add_default_value('axes', None)
-        self.add_default_value('keepdims', 1)
-        self.axes = tuple(self.axes) if self.axes is not None else None
-
+class ReduceL2Node(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=self.axes, keepdims=self.keepdims == 1))
-        outtensors[0].update_tensor(reduced)
+        data = intensors[0].get_numpy()
+        axes = self._reduced_axes(intensors)
+        reduced = numpy.sqrt(numpy.sum(data * data, axis=axes, keepdims=self.keepdims == 1))
+        outtensors[0].update_tensor(reduced.astype(data.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         vol = volume(intensors[0].get_shape())
@@ -2865,14 +2762,13 @@ class MQANode(SDPANode):
 class SplitNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 0)
         self.add_default_value('split', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        end = 0
         inshape = intensors[0].get_shape()
         if self.split is None:
-            if len(intensors) == 2:
+            if len(intensors) == 2 and intensors[1].name != '':
                 split = intensors[1].get_numpy()
             else:
                 if inshape[self.axis] % len(outtensors) == 0:
@@ -2885,18 +2781,12 @@ class SplitNode(Node):
         else:
             split = self.split
         axis = _axes_neg2pos(len(inshape), [self.axis])[0]
+        if len(split) != len(outtensors) or sum(split) != inshape[axis]:
+            raise ValueError(f'cannot split dimension {inshape[axis]} into {list(split)} for {len(outtensors)} outputs')
         shapes = []
         for v in split:
-            shape = []
-            for i in range(len(inshape)):
-                if i == axis:
-                    if end + v < inshape[axis]:
-                        shape.append(v)
-                    else:
-                        shape.append(inshape[axis] - end)
-                else:
-                    shape.append(inshape[i])
-            end += v
+            shape = list(inshape)
+            shape[axis] = int(v)
             shapes.append(shape)
         for i in range(len(shapes)):
             outtensors[i].update_shape(shapes[i])
@@ -2907,7 +2797,7 @@ class SplitNode(Node):
         end = 0
         inshape = intensors[0].get_shape()
         if self.split is None:
-            if len(intensors) == 2:
+            if len(intensors) == 2 and intensors[1].name != '':
                 split = intensors[1].get_numpy()
             else:
                 if inshape[self.axis] % len(outtensors) == 0:
@@ -2921,9 +2811,7 @@ class SplitNode(Node):
             split = self.split
 
         axis = _axes_neg2pos(len(inshape), [self.axis])[0]
-        for v in split:
-            if end + v >= inshape[axis]:
-                break
+        for v in split[:-1]:
             splitpos.append(end + v)
             end += v
         ret = numpy.split(intensors[0].get_numpy(), splitpos, axis)
-- 
2.43.0


From 1f8072c19ddb9322a59f370ffd0aadc9036b873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 15/75] fix: a bias, group or kernel shape that does not fit
 the weight is refused

---
 onnx_tool/node.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 06315d9..9457d81 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -920,6 +920,9 @@ class GemmNode(Node):
             a_batch = a_shape[:-2]
             b_batch = b_shape[:-2]
             yshape = _broadcast_shape([a_batch, b_batch]) + [a_m, b_n]
+            if len(intensors) > 2 and intensors[2].name != '':
+                if _broadcast_shape([yshape, intensors[2].get_shape()]) != yshape:
+                    raise RuntimeError(f'Incompatible GEMM bias: {intensors[2].get_shape()} for output {yshape}')
         else:
             # broadcast support for MatMul-like nodes
             yshape = _matmul_output_shape(a_shape, b_shape)
@@ -2037,9 +2040,13 @@ class ConvNode(Node):
         self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('group', 1)
 
-    def _conv_shape(self, xshape, wshape):
+    def _conv_shape(self, xshape, wshape, bias=None):
         if len(xshape) != len(wshape) or xshape[1] != wshape[1] * self.group:
             raise ValueError(f'input {xshape} does not match weight {wshape} with {self.group} group(s)')
+        if wshape[0] % self.group != 0 or list(getattr(self, 'kernel_shape', wshape[2:])) != list(wshape[2:]):
+            raise ValueError(f'weight {wshape} does not match {self.group} group(s) or the kernel shape')
+        if bias is not None and bias.name != '' and list(bias.get_shape()) != [wshape[0]]:
+            raise ValueError(f'bias {bias.get_shape()} does not match weight {wshape}')
         shape = [xshape[0], wshape[0]]
         rank = len(xshape) - 2
         for i in range(rank):
@@ -2054,7 +2061,8 @@ class ConvNode(Node):
         return shape
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensors[0].update_shape(self._conv_shape(intensors[0].get_shape(), intensors[1].get_shape()))
+        bias = intensors[2] if len(intensors) > 2 else None
+        outtensors[0].update_shape(self._conv_shape(intensors[0].get_shape(), intensors[1].get_shape(), bias))
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2483,7 +2491,8 @@ class QLinearMatMulNode(GemmNode):
 @NODE_REGISTRY.register()
 class QLinearConvNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensors[0].update_shape(self._conv_shape(intensors[0].get_shape(), intensors[3].get_shape()))
+        bias = intensors[8] if len(intensors) > 8 else None
+        outtensors[0].update_shape(self._conv_shape(intensors[0].get_shape(), intensors[3].get_shape(), bias))
         outtensors[0].update_dtype(intensors[7].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 1064020342879679d13bef2cb431193193748518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 16/75] fix: Split refuses more parts than a dimension can be
 divided into

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 9457d81..3def8fd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2790,7 +2790,7 @@ class SplitNode(Node):
         else:
             split = self.split
         axis = _axes_neg2pos(len(inshape), [self.axis])[0]
-        if len(split) != len(outtensors) or sum(split) != inshape[axis]:
+        if len(split) != len(outtensors) or sum(split) != inshape[axis] or min(split) < 0:
             raise ValueError(f'cannot split dimension {inshape[axis]} into {list(split)} for {len(outtensors)} outputs')
         shapes = []
         for v in split:
-- 
2.43.0


From 3fb66765d2409ae500b6593ed48c3ee1d5976818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 17/75] fix: a convolution or pooling window larger than the
 padded input is refused with auto_pad VALID too

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 3def8fd..720384e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -55,7 +55,7 @@ def _convtranspose_output_shape(xin, output_padding, pad, ksize, stride, dilatio
 
 
 def _auto_pad_valid_shape_calc(x, ksize, stride, dilation=1):
-    return math.ceil((x - dilation * (ksize - 1)) / stride)
+    return _conv_output_shape(x, 0, ksize, stride, dilation)
 
 
 def _auto_pad_same_shape_calc(x, stride):
@@ -64,6 +64,8 @@ def _auto_pad_same_shape_calc(x, stride):
 
 def _pooling_shape_calc(inshape, pad, kshape, dilation, stride, ceilmode):
     outshape = (inshape + pad - ((kshape - 1) * dilation + 1)) / stride + 1
+    if inshape > 0 and outshape <= 0:
+        raise ValueError(f'kernel size {kshape} with dilation {dilation} exceeds padded size {inshape + pad}')
     if ceilmode:
         return math.ceil(outshape)
     return math.floor(outshape)
-- 
2.43.0


From 014e838ee1f4778dca1e25fe22699bd7a42c980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 18/75] fix: MACs of pooling, matrix products, quantized
 convolutions, recurrent layers and LayerNormalization count every dimension;
 Gather counts the weight elements it reads

---
 onnx_tool/node.py | 68 ++++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 42 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 720384e..c007658 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -956,17 +956,16 @@ class GemmNode(Node):
         yshape = outtensors[0].get_shape()
         if len(intensors) >= 2:
             weight_shape = intensors[1].get_shape()
-            macs = volume(yshape)
+            macs = math.prod(yshape)
             if self.__class__ == GemmNode:
                 if self.transB > 0:
                     macs *= weight_shape[-1]
                 else:
                     macs *= weight_shape[-2]
             else:
-                if len(weight_shape) > 1:
-                    macs *= weight_shape[-2]
-            if len(intensors) == 3:
-                macs += volume(yshape) * ADD_MACS
+                macs *= weight_shape[-2] if len(weight_shape) > 1 else weight_shape[0]
+            if len(intensors) == 3 and intensors[2].name != '' and self.op_type != 'MatMulInteger':
+                macs += math.prod(yshape) * ADD_MACS
         else:
             raise NotImplementedError()
         return macs
@@ -1009,10 +1008,15 @@ class GatherNode(Node):
         # Embedding lookup: only seq_len rows of the weight table are accessed
         weight_shape = intensors[0].get_shape()
         ids_shape = intensors[1].get_shape()
-        seq_tokens = volume(ids_shape)
-        hidden = weight_shape[-1]
+        seq_tokens = math.prod(ids_shape)
+        axis = _axes_neg2pos(len(weight_shape), [self.axis])[0]
+        hidden = math.prod(weight_shape[:axis] + weight_shape[axis + 1:])
         io_params = volume(outtensors[0].get_shape())  # output activation
-        static_params = seq_tokens * hidden  # weight rows accessed
+        static_params = 0
+        if 0 in self.static_inputs:
+            static_params += seq_tokens * hidden  # weight rows accessed
+        if 1 in self.static_inputs:
+            static_params += volume(ids_shape)
         return [0, io_params, static_params]
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1374,7 +1378,7 @@ class ResizeNode(Node):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outvol = volume(outtensors[0].get_shape())
-        if self.mode == b'nearest':
+        if getattr(self, 'mode', b'nearest') == b'nearest':
             outvol *= 0
         elif self.mode == b'linear':
             outvol *= RESIZE_LINEAR_MACS
@@ -1424,9 +1428,7 @@ class PoolBase(Node):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
         outvol = volume(outshape)
-        macs = outvol * CMP_MACS * self.kernel_shape[0]
-        if len(self.kernel_shape) == 2:
-            macs *= self.kernel_shape[1]
+        macs = outvol * CMP_MACS * volume(self.kernel_shape)
         return macs
 
 
@@ -2008,14 +2010,14 @@ class LSTMNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bshape = intensors[3].get_shape() if len(intensors) > 3 else []
         seq = xshape[0]
         batch = xshape[1]
         num_dir = wshape[0]
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
             assert (h_len == self.hidden_size)
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([num_dir, batch, seq, h_len])
         # ft = sig(W*X+U*Ht-1+B)
         # it = sig(W*X+U*Ht-1+B)
         # ot = sig(W*X+U*Ht-1+B)
@@ -2425,7 +2427,7 @@ class LayerNormalizationNode(Node):
         tshape = intensors[0].get_shape()
         axis = _axes_neg2pos(len(tshape), [self.axis])[0]
         vol = volume(tshape)
-        tshape[axis] = 1
+        tshape[axis:] = [1] * (len(tshape) - axis)
         vol2 = volume(tshape)
         return vol * (MUL_MACS * 3 + ADD_MACS * 4) + vol2 * (ADD_MACS + SQRT_MACS + DIV_MACS)
 
@@ -2480,13 +2482,9 @@ class QLinearMatMulNode(GemmNode):
         raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
         weight_shape = intensors[3].get_shape()
-        macs = volume(xshape)
-        if self.__class__ == GemmNode:
-            macs *= weight_shape[0]
-        else:
-            macs *= weight_shape[-1]
+        macs = math.prod(outtensors[0].get_shape())
+        macs *= weight_shape[-2] if len(weight_shape) > 1 else weight_shape[0]
         return macs
 
 
@@ -2505,16 +2503,9 @@ class QLinearConvNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[3].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
-            else:
-                outvol = 0
-                raise NotImplementedError()
-            if len(intensors) == 9:
+            outvol = volume(outshape)
+            macs += outvol * volume(kernel_shape[1:])
+            if len(intensors) == 9 and intensors[8].name != '':
                 macs += (outvol * ADD_MACS)
         return macs
 
@@ -2533,15 +2524,7 @@ class ConvIntegerNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[1].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
-            else:
-                outvol = 0
-                raise NotImplementedError()
+            macs += volume(outshape) * volume(kernel_shape[1:])
         return macs
 
 
@@ -2669,11 +2652,12 @@ class GRUNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bshape = intensors[3].get_shape() if len(intensors) > 3 else []
         batch = xshape[1]
         seq = xshape[0]
+        num_dir = wshape[0]
         h_len = wshape[1] // 3
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([num_dir, batch, seq, h_len])
         # r = sigmoid(Wr*X+Wr*Ht-1+br)
         # z = sigmoid(Wz*X+Wz*Ht-1+bz)
         # h' = tanh(W*X+W*(r*Ht-1)+bh)
-- 
2.43.0


From e9dcd79961d0aefd940a87677985400bf99cf969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 19/75] fix: profile totals, table rows and memory cover each
 counted node once with its own element sizes; exclusions of one call stay in
 that call

---
 onnx_tool/__init__.py |  2 +-
 onnx_tool/graph.py    | 28 ++++++++++++++++++----------
 onnx_tool/tensor.py   |  4 +---
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 62a73f6..54d8974 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -86,7 +86,7 @@ def model_profile(m, dynamic_shapes: {str: tuple} = None,
         all_ops = {op.name for op in get_all_schemas()}
         for item in exclude_ops:
             assert item in all_ops, f"Provided exclude op is not a valid onnx op: {item}"
-        hidden_ops.update(exclude_ops)
+        hidden_ops = set(hidden_ops or ()).union(exclude_ops)
     gtmr.start()
     g.shape_infer(dynamic_shapes)
     g.log(f'infered all tensor shapes, time cost {gtmr.stop():.3f} s')
diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b4d0430..843a5d1 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1512,6 +1512,13 @@ class Graph():
 
         return cg
 
+    def __memory_size__(self, elements, tensors):
+        tensors = [t for t in tensors if t.name != '']
+        if elements == sum(volume(t.get_shape()) for t in tensors):
+            return sum(t.get_memsize() for t in tensors)
+        # only some of the elements are accessed
+        return elements * (tensors[0].get_elementsize() if tensors else 4)
+
     def profile(self, exclude_ops = None):
         self.valid_profile = False
         if not self.valid_shape:
@@ -1520,8 +1527,9 @@ class Graph():
         self.macs = [0.0, 0.0]
         self.params = 0
         self.memory = 0
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
-        for key in ops_to_cover:
+        self.profiled_nodes = [k for k, v in self.nodemap.items() if not exclude_ops or v.op_type not in exclude_ops]
+        static_tensors = set()
+        for key in self.profiled_nodes:
             node = self.nodemap[key]
             itensors = []
             _params = 0
@@ -1545,9 +1553,9 @@ class Graph():
             macs = ret[0]
             # params: sum of all static input volumes (not deduped)
             _params = sum(volume(itensors[i].get_shape()) for i in node.static_inputs)
-            io_elesize = self.tensormap[node.output[0]].get_elementsize() if node.output else 4
-            static_elesize = self.tensormap[node.input[0]].get_elementsize() if node.input else 4
-            _memory = ret[1] * io_elesize + ret[2] * static_elesize
+            stensors = [itensors[i] for i in node.static_inputs]
+            static_tensors.update(t.name for t in stensors)
+            _memory = self.__memory_size__(ret[1], otensors) + self.__memory_size__(ret[2], stensors)
             outshape = (0,)
             if len(node.output) > 0:
                 outshape = self.tensormap[node.output[0]].get_shape()
@@ -1570,9 +1578,8 @@ class Graph():
 
         # Dedup params: sum each static tensor's volume only once
         self.dedup_params = 0
-        for key in self.initials:
-            if key in self.consumedby and len(self.consumedby[key]) > 0:
-                self.dedup_params += volume(self.tensormap[key].get_shape())
+        for key in static_tensors:
+            self.dedup_params += volume(self.tensormap[key].get_shape())
 
         self.valid_profile = True
 
@@ -1624,9 +1631,10 @@ class Graph():
         params += 1e-18
         memory += 1e-18
         forward_macs += 1e-18
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
-        for key in ops_to_cover:
+        for key in self.profiled_nodes:
             node = self.nodemap[key]
+            if exclude_ops and node.op_type in exclude_ops:
+                continue
             row = [key, self.nodemap[key].op_type]
             if print_sparse_table:
                 sparsity = node.sparsity
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index f773fde..ccf07f2 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -451,9 +451,7 @@ class Tensor():
         return self.shape
 
     def get_elementsize(self):
-        if self.numpy is None or not isinstance(self.numpy, numpy.ndarray):
-            return numpy_dtype2bytes(self.dtype)  # default as float
-        return numpy_dtype2bytes(self.numpy.dtype)
+        return numpy_dtype2bytes(self.dtype)
 
     def get_memsize(self):
         return volume(self.get_shape()) * self.get_elementsize()
-- 
2.43.0


From dd77b7b77a89dfdd0edd11b4ae959474317bb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 20/75] fix: shape inference evaluates the axes of Pad and
 every Reduce operator; a failed or newer inference invalidates shapes and
 profile

---
 onnx_tool/graph.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 843a5d1..c3b686b 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -21,7 +21,7 @@ def __shape_of_initializer__(initial):
 
 _SHAPE_TENSORS = {
     'Reshape': ('1of2',),
-    'Resize': ('2of3', '3of4', '1of2'),
+    'Resize': ('2of3', '2,3of4', '1of2'),
     'Upsample': ('2of3', '3of4', '1of2'),
     'Expand': ('1of2',),
     'Slice': ('1,2of3', '1,2,3of4', '1,2,3,4of5'),
@@ -30,13 +30,17 @@ _SHAPE_TENSORS = {
     'Range': ('0,1,2of3',),
     'OneHot': ('1of3',),
     'TopK': ('1of2',),
-    'Pad': ('1of2', '1of3',),
+    'Pad': ('1of2', '1of3', '1,3of4'),
     'NonMaxSuppression': ('2of5', '2of4'),
     'Split': ('1of2',),
     'Unsqueeze': ('1of2',),
     'Squeeze': ('1of2',),
     'ReduceSum': ('1of2',),
-    'ReduceMean': ('1of2',)
+    'ReduceMean': ('1of2',),
+    'ReduceProd': ('1of2',),
+    'ReduceMin': ('1of2',),
+    'ReduceMax': ('1of2',),
+    'ReduceL2': ('1of2',),
 }
 
 
@@ -1088,6 +1092,7 @@ class Graph():
 
     def shape_infer(self, inputs: {} = None):
         self.valid_shape = False
+        self.valid_profile = False
         if inputs is not None:
             self.update_input_by_map(inputs)
         in_valid, tname = self.check_inputs()
@@ -1122,6 +1127,10 @@ class Graph():
         self.valid_shape = True
 
     def value_infer(self, inputs: {}):
+        # tensors are only consistent again once every node is done
+        valid_shape = self.valid_shape
+        self.valid_shape = False
+        self.valid_profile = False
         self.update_input_by_map(inputs)
         for key in self.nodemap.keys():
             node = self.nodemap[key]
@@ -1132,6 +1141,7 @@ class Graph():
             for output in node.output:
                 otensors.append(self.tensormap[output])
             node.value_infer(itensors, otensors)
+        self.valid_shape = valid_shape
         outputs = []
         for output in self.output:
             outputs.append(self.tensormap[output].numpy)
-- 
2.43.0


From 95245eee99c0186f12a7bf22386f714a4efcced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 21/75] fix: Reshape takes scalars, empty shapes and allowzero

---
 onnx_tool/node.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c007658..e99e3ec 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2573,28 +2573,24 @@ class ConvTransposeNode(Node):
 
 @NODE_REGISTRY.register()
 class ReshapeNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('allowzero', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         srcshape = intensors[0].get_shape()
-        if not is_valid_ndarray(intensors[1].get_numpy()):
-            outtensors[0].update_shape([1, ])
-            outtensors[0].update_dtype(intensors[0].dtype)
-            return
         shape = intensors[1].get_numpy()
         newshape = []
         for i in range(len(shape)):
-            if shape[i] == 0:
+            if shape[i] == 0 and not self.allowzero:
                 newshape.append(int(srcshape[i]))
             else:
                 newshape.append(int(shape[i]))
-        sum = volume(newshape)
-        raw = volume(srcshape)
-        if sum < 0:
-            remain = raw // -sum
-            for i, val in enumerate(newshape):
-                if val == -1:
-                    newshape[i] = remain
-                    break
-        assert raw == volume(newshape)
+        raw = math.prod(srcshape)
+        if -1 in newshape:
+            rest = -math.prod(newshape)
+            newshape[newshape.index(-1)] = raw // rest if rest else 0
+        assert raw == math.prod(newshape)
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -2603,7 +2599,7 @@ class ReshapeNode(Node):
         xtensor = intensors[0].get_numpy()
         stensor = intensors[1].get_numpy()
         for i, v in enumerate(stensor):
-            if v == 0:
+            if v == 0 and not self.allowzero:
                 shape.append(xtensor.shape[i])
             else:
                 shape.append(v)
-- 
2.43.0


From 72b75a4a854c6075e3306395badb0c3760b13766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 22/75] fix: value inference of a convolution starts from zero
 on a used graph

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e99e3ec..b873799 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2074,7 +2074,7 @@ class ConvNode(Node):
             raise NotImplementedError()
         self.shape_infer(intensors, outtensors)
         outshape = outtensors[0].get_shape()
-        outtensor = outtensors[0].get_numpy()
+        outtensor = numpy.zeros(outshape, dtype=intensors[0].get_numpy().dtype)
         has_bias = len(intensors) > 2 and intensors[2].name != ''
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-- 
2.43.0


From be83177f0b56ee6a310a5e46998b2df20fac47f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 23/75] fix: a graph input declared without shape is unset, no
 inferred dimension is negative

---
 onnx_tool/graph.py  | 5 +++++
 onnx_tool/tensor.py | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index c3b686b..b136213 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1083,6 +1083,8 @@ class Graph():
     def check_inputs(self):
         for name in self.input:
             shape = self.tensormap[name].shape
+            if not self.tensormap[name].has_rank():
+                return False, name
             for val in shape:
                 if isinstance(val, str):
                     return False, name
@@ -1116,6 +1118,9 @@ class Graph():
                     node.value_infer(itensors, otensors)
                 else:
                     node.shape_infer(itensors, otensors)
+                for tensor in otensors:
+                    if any(not isinstance(s, str) and s < 0 for s in tensor.shape):
+                        raise ValueError(f'negative dimension in {tensor.name} {tensor.shape2str()}')
             except Exception as e:
                 raise ValueError(f"Error occurred while inferring shape for node {node.name}: {e}")
 
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index ccf07f2..50b6c9b 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -413,7 +413,15 @@ class Tensor():
     def update_dtype(self, dtype):
         self.dtype = dtype
 
+    def has_rank(self):
+        # a graph input declared without a shape is not a scalar
+        if len(self.shape) > 0 or self.numpy is not None or not isinstance(self.proto, onnx.ValueInfoProto):
+            return True
+        return self.proto.type.tensor_type.HasField('shape')
+
     def shape2str(self):
+        if not self.has_rank():
+            return '[?]'
         st = '['
         for val in self.shape:
             if isinstance(val, str):
-- 
2.43.0


From 4e44934cdc7e6e10e6d1766cfafb9c4e4b826ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 24/75] fix: GridSample takes constant operands; a lookup in a
 constant table counts its constant indices in their own type

---
 onnx_tool/graph.py | 7 +++++--
 onnx_tool/node.py  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b136213..474683d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1531,8 +1531,11 @@ class Graph():
         tensors = [t for t in tensors if t.name != '']
         if elements == sum(volume(t.get_shape()) for t in tensors):
             return sum(t.get_memsize() for t in tensors)
-        # only some of the elements are accessed
-        return elements * (tensors[0].get_elementsize() if tensors else 4)
+        # only some of the first tensor's elements are accessed
+        if not tensors:
+            return elements * 4
+        rest = sum(volume(t.get_shape()) for t in tensors[1:])
+        return sum(t.get_memsize() for t in tensors[1:]) + (elements - rest) * tensors[0].get_elementsize()
 
     def profile(self, exclude_ops = None):
         self.valid_profile = False
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b873799..018ac74 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1110,7 +1110,7 @@ class GridSampleNode(Node):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         r = intensors[1].shape[-1]
-        out_shape = intensors[0].shape[:2] + intensors[1].shape[1:1 + r]
+        out_shape = list(intensors[0].shape[:2]) + list(intensors[1].shape[1:1 + r])
         outtensors[0].update_shape(out_shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From e24d85303d753d7e4e1b7828660a670776656371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 25/75] fix: a CSV profile quotes names containing commas or
 quotes

---
 onnx_tool/utils.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/onnx_tool/utils.py b/onnx_tool/utils.py
index 2e6311b..e62896b 100644
--- a/onnx_tool/utils.py
+++ b/onnx_tool/utils.py
@@ -1,3 +1,4 @@
+import csv
 import time
 import warnings
 from tabulate import tabulate
@@ -52,26 +53,13 @@ def print_table(ptable, header, f):
     if f is None:
         print(tabulate(ptable, headers=header))
     else:
-        fp = open(f, 'w')
-        if saveformat == 'csv':
-            headerstr = ''
-            for i, item in enumerate(header):
-                headerstr += item
-                if i < len(header) - 1:
-                    headerstr += ','
-            headerstr += '\n'
-            fp.write(headerstr)
-            for row in ptable:
-                str = ''
-                for i, ele in enumerate(row):
-                    str += ele
-                    if i != len(row) - 1:
-                        str += ','
-                str += '\n'
-                fp.write(str)
-        else:
-            fp.write(tabulate(ptable, headers=header))
-        fp.close()
+        with open(f, 'w', newline='') as fp:
+            if saveformat == 'csv':
+                writer = csv.writer(fp, lineterminator='\n')
+                writer.writerow(header)
+                writer.writerows(ptable)
+            else:
+                fp.write(tabulate(ptable, headers=header))
 
 # modify from https://github.com/XPixelGroup/BasicSR/blob/master/basicsr/utils/registry.py # noqa: E501
 class Registry():
-- 
2.43.0


From e202f9f07880691542e8f9a6da80f7d85e549773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 26/75] fix: constant folding keeps a constant that is a graph
 output and lists an initializer once

---
 onnx_tool/graph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 474683d..e60f5d5 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -215,10 +215,19 @@ class Graph():
         from .utils import timer
         tm = timer()
         if constant_folding:
+            outputs = set(self.output)
+            if not self.cfg.remove_dangling:
+                outputs.update(o.name for o in self.rawgraph.output)
             rmlist = []
             for key in self.nodemap:
-                if self.nodemap[key].constant:
+                node = self.nodemap[key]
+                if node.constant and outputs.isdisjoint(node.output):
                     rmlist.append(key)
+                elif node.constant:
+                    # a graph output needs a node producing it
+                    for tname in node.output:
+                        if tname != '':
+                            self.tensormap[tname].type = DYNAMIC_TENSOR
             self.log(f'GraphProto Nodes Count:{len(self.rawgraph.node)}')
             self.log(f'Contant folding {rmlist[:3]}... {len(rmlist)} Nodes')
             for key in rmlist:
@@ -240,7 +249,8 @@ class Graph():
                         self.dynamics.append(tname)
         else:
             for initial in self.rawgraph.initializer:
-                self.initials.append(initial.name)
+                if initial.name not in self.initials:
+                    self.initials.append(initial.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
-- 
2.43.0


From 887844f22e4a2d998b8b6d76ae6a0c0ff7059829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 27/75] fix: Constant takes numbers and number lists, Erf takes
 tensors of any shape

---
 onnx_tool/node.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 018ac74..f9a2c79 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1073,6 +1073,11 @@ class Relu6Node(PWNode):
 class ConstantNode(Node):
     def __init__(self, n):
         super().__init__(n)
+        # the constant may be given as a tensor, a number or a list of numbers
+        for key, dtype in (('value_int', numpy.int64), ('value_ints', numpy.int64),
+                           ('value_float', numpy.float32), ('value_floats', numpy.float32)):
+            if key in self.attr:
+                self.value = numpy.array(self.attr[key], dtype=dtype)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(self.value.shape)
@@ -1573,9 +1578,10 @@ class IdentityNode(FusedBase):
 @NODE_REGISTRY.register()
 class ErfNode(FusedBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensor = numpy.zeros_like(intensors[0].get_numpy())
-        for i in numpy.ndindex(intensors[0].shape):
-            outtensor[i] = math.erf(intensors[0].get_numpy()[i])
+        x = intensors[0].get_numpy()
+        outtensor = numpy.zeros_like(x)
+        for i in numpy.ndindex(x.shape):
+            outtensor[i] = math.erf(x[i])
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 633ccc8bc712cbb038db74324c47696cc44e1cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 28/75] fix: tensors of every element type and encoding are
 read and written as they are, unknown dimensions stay unknown

---
 onnx_tool/tensor.py | 112 +++++++++++---------------------------------
 1 file changed, 27 insertions(+), 85 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 50b6c9b..e62066e 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -35,28 +35,11 @@ def shape_of_initializer(initial):
 
 
 def onnxdtype2npdtype(data_type):
-    if data_type == onnx.TensorProto.FLOAT:
-        return numpy.float32
-    if data_type == onnx.TensorProto.DOUBLE:
-        return numpy.float64
-    if data_type == onnx.TensorProto.FLOAT16:
-        return numpy.float16
-    if data_type == onnx.TensorProto.INT32:
-        return numpy.int32
-    if data_type == onnx.TensorProto.INT16:
-        return numpy.int16
-    if data_type == onnx.TensorProto.INT64:
-        return numpy.int64
-    if data_type == onnx.TensorProto.INT8:
-        return numpy.int8
-    if data_type == onnx.TensorProto.UINT8:
-        return numpy.uint8
-    if data_type == onnx.TensorProto.UINT16:
-        return numpy.uint16
-    if data_type == onnx.TensorProto.BOOL:
-        return numpy.bool_
+    if data_type == onnx.TensorProto.UNDEFINED:
+        return None
     if data_type == onnx.TensorProto.STRING:
         return numpy.bytes_
+    return onnx.helper.tensor_dtype_to_np_dtype(data_type).type
 
 
 def type_of_tensor(tensor):
@@ -64,61 +47,23 @@ def type_of_tensor(tensor):
 
 
 def npdtype2onnxdtype(npdtype):
-    if npdtype == numpy.float32:
-        return onnx.TensorProto.FLOAT
-    if npdtype == numpy.float64:
-        return onnx.TensorProto.DOUBLE
-    if npdtype == numpy.float16:
-        return onnx.TensorProto.FLOAT16
-    if npdtype == numpy.int32:
-        return onnx.TensorProto.INT32
-    if npdtype == numpy.int16:
-        return onnx.TensorProto.INT16
-    if npdtype == numpy.int64:
-        return onnx.TensorProto.INT64
-    if npdtype == numpy.int8:
-        return onnx.TensorProto.INT8
-    if npdtype == numpy.uint8:
-        return onnx.TensorProto.UINT8
-    if npdtype == numpy.uint16:
-        return onnx.TensorProto.UINT16
-    if npdtype == numpy.bool_:
-        return onnx.TensorProto.BOOL
-    if npdtype == numpy.bytes_:
-        return onnx.TensorProto.STRING
-    if npdtype == numpy.bytes_:
+    if npdtype is None:
+        return onnx.TensorProto.UNDEFINED
+    npdtype = numpy.dtype(npdtype)
+    if npdtype.kind in 'SUO':
         return onnx.TensorProto.STRING
+    return onnx.helper.np_dtype_to_tensor_dtype(npdtype)
 
 
 def tensorproto2ndarray(initial):
     shape = shape_of_initializer(initial)
-    ndtype = onnxdtype2npdtype(initial.data_type)
-    if initial.raw_data == b'':
-        arr = numpy.zeros(shape, ndtype).reshape((-1))
-        if ndtype == numpy.float32:
-            arr = numpy.fromiter(initial.float_data, dtype=ndtype)
-
-        elif ndtype == numpy.int32:
-            arr = numpy.fromiter(initial.int32_data, dtype=ndtype)
-
-        elif ndtype == numpy.float16:
-            raw = list(initial.int32_data)
-            raw = numpy.fromiter(raw, dtype=numpy.uint16)
-            mem = raw.tobytes()
-            arr = numpy.frombuffer(mem, dtype=numpy.float16).reshape(shape)
-
-        elif ndtype == numpy.int64:
-            arr = numpy.fromiter(initial.int64_data, dtype=ndtype)
-
-        elif ndtype == numpy.float64:
-            arr = numpy.fromiter(initial.double_data, dtype=ndtype)
-        elif ndtype == numpy.bytes_:
-            arr = numpy.array(initial.string_data, dtype=ndtype)
-    else:
-        arr = numpy.frombuffer(initial.raw_data, dtype=ndtype)
-    # if len(shape):
-    arr = arr.reshape(shape)
-    return arr
+    if initial.data_type == onnx.TensorProto.STRING:
+        return numpy.array(list(initial.string_data), dtype=numpy.bytes_).reshape(shape)
+    fields = (initial.raw_data, initial.float_data, initial.int32_data, initial.int64_data, initial.double_data,
+              initial.uint64_data)
+    if not any(len(field) for field in fields):
+        return numpy.zeros(shape, onnxdtype2npdtype(initial.data_type))
+    return onnx.numpy_helper.to_array(initial)
 
 
 def get_attribute_data(att):
@@ -375,6 +320,7 @@ class Tensor():
             self.numpy = None
             self.type = DYNAMIC_TENSOR if t != '' else STATIC_TENSOR
             self.dtype = numpy.float32
+            self.ranked = False
         elif isinstance(t, onnx.ValueInfoProto):
             self.name = t.name
             self.proto = t
@@ -382,6 +328,7 @@ class Tensor():
             self.numpy = None
             self.type = DYNAMIC_TENSOR
             self.dtype = type_of_tensor(t)
+            self.ranked = t.type.tensor_type.HasField('shape')
         elif isinstance(t, onnx.TensorProto):
             self.name = t.name
             self.proto = t
@@ -390,6 +337,7 @@ class Tensor():
             self.shape = list(self.numpy.shape)
             self.type = STATIC_TENSOR
             self.dtype = self.numpy.dtype.type
+            self.ranked = True
         else:
             assert 0
         self.sparsity_search()
@@ -409,6 +357,7 @@ class Tensor():
         if isinstance(shape, numpy.ndarray):
             assert 0
         self.shape = shape
+        self.ranked = True
 
     def update_dtype(self, dtype):
         self.dtype = dtype
@@ -479,8 +428,10 @@ class Tensor():
         self.sparsity = {'blocksize': blocksize, 'blockratio': blockratio, 'ratio': ratio}
 
     def make_value_proto(self, make_dummy=False):
-        shape = self.get_shape()
-        if len(self.shape) == 0:
+        if len(self.shape) > 0 or self.ranked or self.numpy is not None:
+            # None stands for a dimension which is not known
+            shape = [None if not isinstance(s, str) and s < 0 else s for s in self.get_shape()]
+        else:
             shape = None
         if self.numpy is None:
             dtype = npdtype2onnxdtype(self.dtype)
@@ -495,19 +446,10 @@ class Tensor():
     def make_tensor_proto(self):
         if self.numpy is None:
             return None
-        if len(self.numpy.shape) == 0:
-            tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
-                                             , [], [self.numpy.item()])
-        else:
-            if self.numpy.dtype not in [numpy.float32, numpy.int32]:
-                raw = True
-                data = self.numpy.tobytes()
-            else:
-                raw = False
-                data = self.numpy.flatten()
-            tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
-                                             , self.numpy.shape, data, raw=raw)
-        return tproto
+        if self.numpy.dtype.kind in 'SUO':
+            return onnx.helper.make_tensor(self.name, onnx.TensorProto.STRING, self.numpy.shape,
+                                           self.numpy.flatten().tolist())
+        return onnx.numpy_helper.from_array(numpy.asarray(self.numpy), self.name)
 
 
 def create_initial_Tensor(name: str, ndarray: numpy.ndarray):
-- 
2.43.0


From 53737d4af5c9c4f031d803242759cb7259e2117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 29/75] fix: saved nodes keep their domain, empty and oddly
 named attributes and what nested graphs use

---
 onnx_tool/graph.py | 32 +++++++++++++++++++++++++-------
 onnx_tool/node.py  | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index e60f5d5..29dfca2 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -235,7 +235,7 @@ class Graph():
 
         if constant_folding:
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
+                for tname in self.nodemap[name].input + self.nodemap[name].captured:
                     if tname == '':
                         continue
                     if self.tensormap[tname].type == STATIC_TENSOR:
@@ -253,13 +253,19 @@ class Graph():
                     self.initials.append(initial.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
+                for tname in self.nodemap[name].input + self.nodemap[name].captured:
                     if tname != '' and tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
                     if tname != '' and tname not in self.dynamics:
                         self.dynamics.append(tname)
 
+        # a graph output may be a graph input or an initializer
+        for tname in self.output:
+            if tname not in self.initials and tname not in self.dynamics:
+                static = self.tensormap[tname].type == STATIC_TENSOR
+                (self.initials if static else self.dynamics).append(tname)
+
         # '' stands for an omitted optional tensor
         valid_tensors = ['']
         valid_tensors.extend(self.initials)
@@ -276,7 +282,7 @@ class Graph():
             self.output = []
         for name in self.nodemap.keys():
             node = self.nodemap[name]
-            for tensor in node.input:
+            for tensor in node.input + node.captured:
                 if tensor not in self.producedby and tensor in self.dynamics:
                     if tensor not in self.input:
                         self.input.append(tensor)
@@ -287,6 +293,9 @@ class Graph():
                     if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
                         if tensor not in self.output:
                             self.output.append(tensor)
+        for tensor in self.output:
+            if tensor not in self.producedby and tensor in self.dynamics and tensor not in self.input:
+                self.input.append(tensor)
         self.__update_consumer_producer__()
         self.log(f'Update Nodes Tensors  Time Elapsed {tm.stop()}')
 
@@ -294,7 +303,7 @@ class Graph():
         constant_node = True
         if node.op_type in ['DequantizeLinear']:
             return False
-        for tname in node.input:
+        for tname in node.input + node.captured:
             if self.tensormap[tname].type == DYNAMIC_TENSOR:
                 constant_node = False
                 break
@@ -553,6 +562,9 @@ class Graph():
             for tensor in node.input:
                 if tensor not in self.tensormap.keys():
                     self.tensormap[tensor] = Tensor(tensor)
+            for tensor in node.captured:
+                if tensor not in self.tensormap.keys():
+                    self.tensormap[tensor] = Tensor(tensor)
             for tensor in node.output:
                 if tensor not in self.tensormap.keys():
                     self.tensormap[tensor] = Tensor(tensor)
@@ -685,7 +697,7 @@ class Graph():
         initializer = []
         enqueued = []
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            for input in self.nodemap[name].input + self.nodemap[name].captured:
                 if input in self.initials and input not in enqueued:
                     proto = self.tensormap[input].make_tensor_proto()
                     if proto is not None:
@@ -936,6 +948,10 @@ class Graph():
         initializer = None
         if with_initializer:
             initializer = self.get_initials_from_nodenames(nodenames)
+            exported = {proto.name for proto in initializer}
+            for name in outputnames:
+                if name in self.initials and name not in exported and self.tensormap[name].numpy is not None:
+                    initializer.append(self.tensormap[name].make_tensor_proto())
 
         inputs = []
         outputs = []
@@ -952,7 +968,9 @@ class Graph():
             else:
                 inputs.append(onnx.helper.make_tensor_value_info(name, 1, None))
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
-        used_names = {i for nodename in nodenames for i in self.nodemap[nodename].input}
+        used_names = {i for nodename in nodenames
+                      for i in self.nodemap[nodename].input + self.nodemap[nodename].captured}
+        used_names.update(outputnames)
         for name in self.initials:
             if name in initializer_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
@@ -1002,7 +1020,7 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             count = 0
-            for tname in node.input:
+            for tname in node.input + node.captured:
                 if tname in produced_by.keys():
                     count += 1
                     if tname in consumed_by.keys():
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f9a2c79..97d28d9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -190,6 +190,21 @@ def _matmul_output_shape(a_shape, b_shape):
     return yshape
 
 
+def _captured_tensors(g):
+    # names a nested graph uses without defining them
+    known = {t.name for t in g.initializer} | {i.name for i in g.input}
+    captured = []
+    for node in g.node:
+        used = list(node.input)
+        for att in node.attribute:
+            for sub in ([att.g] if att.type == att.GRAPH else att.graphs):
+                used.extend(_captured_tensors(sub))
+        captured.extend(t for t in used if t != '' and t not in known)
+        known.update(node.output)
+    captured.extend(o.name for o in g.output if o.name not in known)
+    return captured
+
+
 class TmpNodeProto:
     def __init__(self, name, op_type, attributes):
         self.name = name
@@ -211,6 +226,10 @@ class Node():
         # Annotated by graph.profile(): which input indices are static (weights) vs dynamic (activations)
         self.static_inputs = []   # list of indices
         self.dynamic_inputs = []  # list of indices
+        self.domain = getattr(n, 'domain', '')
+        # tensors which nested graphs (branches, loop bodies) take from outside
+        self.captured = []
+        fields = set(self.__dict__)
         if isinstance(n.attribute, dict):
             for att in n.attribute:
                 self.attr[att] = n.attribute[att]
@@ -218,6 +237,11 @@ class Node():
         else:
             for att in n.attribute:
                 self.attr[att.name] = onnx.helper.get_attribute_value(att)
+                for g in ([att.g] if att.type == att.GRAPH else att.graphs):
+                    self.captured.extend(t for t in _captured_tensors(g) if t not in self.captured)
+                if att.name in fields or hasattr(type(self), att.name):
+                    # an attribute may be called like a field of this class
+                    continue
                 self.__setattr__(att.name, get_attribute_data(att))
                 if att.name == 'axes':
                     if isinstance(self.axes, list):
@@ -232,7 +256,17 @@ class Node():
             setattr(self, attname, defaultvalue)
 
     def make_nodeproto(self):
-        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, **self.attr)
+        nodeproto = onnx.helper.make_node(self.op_type, self.input, self.output, self.name, domain=self.domain)
+        attrtypes = {} if isinstance(self.proto.attribute, dict) else {a.name: a.type for a in self.proto.attribute}
+        for key in sorted(self.attr):
+            val = self.attr[key]
+            if val is None:
+                continue
+            # the type of an empty list is not visible
+            empty = isinstance(val, (list, tuple)) and len(val) == 0
+            nodeproto.attribute.append(
+                onnx.helper.make_attribute(key, val, attr_type=attrtypes.get(key) if empty else None))
+        return nodeproto
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         self.value_infer(intensors, outtensors)
-- 
2.43.0


From e95df67a60ea0c40616dc7563be1ae03209014a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 30/75] fix: ConvBNFusion fuses only what it may, for every
 layout of weights and bias

A convolution bias was looked up among the nodes (KeyError), weights loaded from
raw data could not be written, only 4-d weights were handled, and the pass did
not look at other users of the convolution result or weights, at graph outputs,
extra or training-mode outputs of the normalisation or parameters that are
computed.
---
 onnx_tool/fusion.py | 65 ++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 8976cbf..e69ea5a 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -387,40 +387,51 @@ class FusionPattern():
         return ls_nodes
 
 
+def _conv_bn_fusable(graph: Graph, conv_node, bn_node):
+    # the result of the convolution and its weights may have no other user, everything folded must be constant
+    used = set(graph.output)
+    for name in graph.nodemap:
+        used.update(graph.nodemap[name].captured)
+    if conv_node.output[0] in used or graph.consumedby[conv_node.output[0]] != [bn_node.name]:
+        return False
+    if any(name != '' and (graph.consumedby.get(name) or name in used) for name in bn_node.output[1:]):
+        return False
+    if bn_node.training_mode or bn_node.input[0] != conv_node.output[0]:
+        return False
+    weight = conv_node.input[1]
+    if graph.consumedby[weight] != [conv_node.name] or weight in used:
+        return False
+    params = [name for name in conv_node.input[1:3] if name != ''] + list(bn_node.input[1:5])
+    return all(name in graph.initials and graph.tensormap[name].numpy is not None for name in params)
+
+
 def ConvBNFusion(graph: Graph):
-    import math
     pattern = FusionPattern(ConvBN)
     node_sets = pattern.search_pattern(graph)
     for nodes in node_sets:
         conv_node = graph.nodemap[nodes[0]]
         bn_node = graph.nodemap[nodes[1]]
+        if not _conv_bn_fusable(graph, conv_node, bn_node):
+            continue
         weight = graph.tensormap[conv_node.input[1]]
-        gamma = graph.tensormap[bn_node.input[1]]
-        beta = graph.tensormap[bn_node.input[2]]
-        mean = graph.tensormap[bn_node.input[3]]
-        var = graph.tensormap[bn_node.input[4]]
-        wshape = weight.shape
-        if len(conv_node.input) == 3:
-            hasbias = True
-            newbias = graph.nodemap[conv_node.input[2]].numpy
-        else:
-            hasbias = False
-            newbias = numpy.zeros((wshape[0],), dtype=numpy.float32)
-        for i in range(wshape[0]):
-            sm = gamma.numpy[i] / math.sqrt(var.numpy[i] + bn_node.epsilon)
-            sv = beta.numpy[i]
-            for j in range(wshape[1]):
-                for k in range(wshape[2]):
-                    for l in range(wshape[3]):
-                        weight.numpy[i, j, k, l] = sm * weight.numpy[i, j, k, l]
-            newbias[i] = sm * (newbias[i] - mean.numpy[i]) + sv
-        weight.update_proto(weight.numpy)
+        gamma, beta, mean, var = [graph.tensormap[name].numpy.astype(numpy.float64) for name in bn_node.input[1:5]]
+        scale = gamma / numpy.sqrt(var + bn_node.epsilon)
+        hasbias = len(conv_node.input) == 3 and conv_node.input[2] != ''
+        bias = graph.tensormap[conv_node.input[2]].numpy if hasbias else numpy.zeros_like(mean)
+        newweight = weight.numpy * scale.reshape((-1,) + (1,) * (len(weight.numpy.shape) - 1))
+        newbias = scale * (bias - mean) + beta
+        dtype = weight.numpy.dtype
+        weight.update_proto(newweight.astype(dtype))
         newbiasname = conv_node.name + "_bias_"
-        graph.add_initial(newbiasname, newbias)
+        while newbiasname in graph.tensormap:
+            newbiasname += '_'
+        graph.add_initial(newbiasname, newbias.astype(dtype))
+        outputs = list(graph.output)
         graph.remove_node(nodes[1])
-        if hasbias:
-            conv_node.input[2] = newbiasname
-        else:
-            conv_node.input.append(newbiasname)
-        graph.producedby[bn_node.output[0]] = [conv_node.name]
+        graph.output = outputs
+        conv_node.input[2:] = [newbiasname]
+        oldname = conv_node.output[0]
         conv_node.output[0] = bn_node.output[0]
+        if oldname in graph.dynamics:
+            graph.dynamics.remove(oldname)
+        graph.update_tensor_relations()
-- 
2.43.0


From 667fd86739562403dcf33e15d00c1e5b961a92f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:08 +0000
Subject: [PATCH 31/75] fix: compress_memory keeps graph outputs and what
 nested graphs use, and places scalars

A graph output that was also consumed was released after its consumer, tensors
taken by nested graphs were released early, scalar activations had no block, and
a graph without internal activations raised ZeroDivisionError.
---
 onnx_tool/graph.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 29dfca2..b44ae29 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1301,23 +1301,21 @@ class Graph():
         """
         tensor_in_mem = copy.deepcopy(self.input)
         tensor_mem_per_node = []
-        tensor_consumed = {}
+        # a tensor is released after its last user, graph outputs stay
+        last_user = {}
+        for node in self.nodemap.keys():
+            for name in self.nodemap[node].input + self.nodemap[node].captured:
+                last_user[name] = node
         for node in self.nodemap.keys():
             node_ = self.nodemap[node]
             for name in node_.output:
                 tensor_in_mem.append(name)
             new_list = copy.deepcopy(tensor_in_mem)
             tensor_mem_per_node.append(new_list)
-            for name in node_.input:
-                if name in self.consumedby:
-                    if name in tensor_consumed:
-                        tensor_consumed[name].append(node)
-                    else:
-                        tensor_consumed[name] = [node]
-                    consumers = self.consumedby[name]
-                    if len(tensor_consumed[name]) == len(consumers):
-                        if name in tensor_in_mem:
-                            tensor_in_mem.remove(name)
+            for name in node_.input + node_.captured:
+                if last_user[name] == node and name not in self.output:
+                    if name in tensor_in_mem:
+                        tensor_in_mem.remove(name)
         for output in self.output:
             if output not in tensor_in_mem:
                 warnings.warn(f'tensor list is wrong, {output} is missing!')
@@ -1332,7 +1330,9 @@ class Graph():
             if tname not in self.producedby and tname not in self.input:
                 continue
             if tname in self.tensormap:
-                size_ = self.tensormap[tname].get_memsize()
+                # a scalar takes the space of one element
+                size_ = self.tensormap[tname].get_memsize() if len(self.tensormap[tname].get_shape()) else \
+                    self.tensormap[tname].get_elementsize()
                 size_ = int((size_ + size_padding - 1) // size_padding * size_padding)
                 if size_ > 0:
                     tensor_sizes[tname] = size_
@@ -1484,7 +1484,8 @@ class Graph():
 
         self.log(f"Raw memory size (without parameter memory): {raw_memsize:,} bytes")
         self.log(f"Compressed memory size: {compress_size:,} bytes")
-        self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
+        if raw_memsize > 0:
+            self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
         return compress_mem, compress_size
 
     def get_compute_graph(self):
-- 
2.43.0


From bee572b7cc1c072be0618616a5a4c9c8255db36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 32/75] fix: shape_regress samples until the shapes are
 explained in the whole range

Three samples (ends and middle) cannot tell floor from ceil when they are all
even, slopes were rounded to integers, and functions agreeing on the samples
were merged, so that the engine gave wrong shapes for values in between. Values
are now sampled wherever two floor-linear explanations of the samples differ.
Numpy integers in shapes raised KeyError, constant ranges ZeroDivisionError, and
the graph was left with float64 tensors.
---
 onnx_tool/graph.py | 226 ++++++++++++++++++++++++++++-----------------
 1 file changed, 140 insertions(+), 86 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b44ae29..459387e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -76,6 +76,16 @@ class ValueExpr():
         self.truncmode = 0
         self.build_expr(srcrange, dstrange)
 
+    @staticmethod
+    def floor_expr(p, q, r):
+        """floor((p * x + q) / r), half a step away from the edge of rounding"""
+        expr = ValueExpr([0, 1], [0, 1])
+        expr.truncmode = 0 if r == 1 else 1
+        expr.factor = 1 if p == 1 and r > 1 else 0
+        expr.alpha = r if expr.factor == 1 else p if r == 1 else p / r
+        expr.beta = q if r == 1 else (q + 0.5) / r
+        return expr
+
     def error(self, srcrange, dstrange):
         err = 0
         for sval, dval in zip(srcrange, dstrange):
@@ -86,7 +96,11 @@ class ValueExpr():
         lastidx = len(srcrange) - 1
         srclen = srcrange[lastidx] - srcrange[0]
         dstlen = dstrange[lastidx] - dstrange[0]
-        if srclen <= dstlen:
+        if dstlen == 0:
+            self.factor = 0
+            self.alpha = 0
+            self.beta = dstrange[0]
+        elif srclen <= abs(dstlen):
             self.factor = 0
             self.alpha = round(dstlen / srclen)
             self.beta = round(dstrange[lastidx] - srcrange[lastidx] * self.alpha)
@@ -116,6 +130,31 @@ class ValueExpr():
             return math.floor(x)
 
 
+# how many values of one variable are tried at most, and the largest stride
+MAX_SHAPE_SAMPLES = 64
+MAX_SHAPE_STRIDE = 64
+
+
+def _fit_floor_exprs(src, dst):
+    """All p, q, r with dst == (p * src + q) // r, for one p and r the smallest and the largest q."""
+    lo, hi = min(zip(src, dst)), max(zip(src, dst))
+    ds, dd = hi[0] - lo[0], hi[1] - lo[1]
+    if ds == 0 or dd < 0:
+        return []
+    fits = []
+    for r in range(1, MAX_SHAPE_STRIDE + 1):
+        for p in range(max(1, (dd - 1) * r // ds), (dd + 1) * r // ds + 2):
+            if math.gcd(p, r) != 1:
+                continue
+            rest = [d * r - p * s for s, d in zip(src, dst)]
+            first, last = max(rest), min(rest) + r - 1
+            if first <= last:
+                fits.append((p, first, r))
+                if last > first:
+                    fits.append((p, last, r))
+    return fits
+
+
 class ShapeEngine():
     def __init__(self, input_desc):
         self.input_desc = input_desc
@@ -1190,102 +1229,117 @@ class Graph():
         shapeengine = ShapeEngine(input_desc)
         for key in input_range.keys():
             shapeengine.update_variable(key, input_range[key][1])
-        tmp_input = shapeengine.generate_input()
-        self.shape_infer(tmp_input)
-        maxtensormap = self.get_dynamic_tensors()
+        maxshapes = self.__infer_shapes(shapeengine)
 
         for key in input_range.keys():
             shapeengine.update_variable(key, input_range[key][0])
-        tmp_input = shapeengine.generate_input()
-        self.shape_infer(tmp_input)
-        mintensormap = self.get_dynamic_tensors()
+        minshapes = self.__infer_shapes(shapeengine)
 
-        for key in mintensormap.keys():
-            if key in input_desc.keys():
+        for tname in minshapes.keys():
+            if tname in input_desc.keys():
                 continue
-            shape_desc = []
-            minshape = mintensormap[key].shape
-            maxshape = maxtensormap[key].shape
-            for i, a in zip(minshape, maxshape):
-                if i == a:
-                    shape_desc.append(i)
-                else:
-                    shape_desc.append('')
-            shapeengine.add_tensor_desc(key, shape_desc)
+            shapeengine.add_tensor_desc(tname, [i if i == a else '' for i, a in zip(minshapes[tname], maxshapes[tname])])
 
-        vcount = 0
         for key in input_range.keys():
-            minv = input_range[key][0]
-            maxv = input_range[key][1]
-            vranges = [(minv + maxv) // 2, maxv]
-            shapes_range = []
-
-            for val in vranges:
-                shapeengine.update_variable(key, val)
-                tmpinputs = shapeengine.generate_input()
-                self.shape_infer(tmpinputs)
-                shapes_range.append(self.get_dynamic_tensors())
+            minv, maxv = input_range[key]
+            samples = {minv: minshapes}
+
+            def sample(val):
+                if val not in samples:
+                    shapeengine.update_variable(key, val)
+                    samples[val] = self.__infer_shapes(shapeengine)
+                    shapeengine.update_variable(key, minv)
+
+            for val in ((minv + maxv) // 2, maxv):
+                sample(val)
+            dims = []
+            for tname in minshapes.keys():
+                if tname in input_desc.keys():
+                    continue
+                for i in range(len(minshapes[tname])):
+                    if any(samples[val][tname][i] != minshapes[tname][i] for val in samples):
+                        dims.append((tname, i))
+            # sample more values until all expressions which explain the shapes agree in the whole range
+            series, undecided = self.__regress_dims(samples, dims, minv, maxv)
+            while undecided is not None and len(samples) < MAX_SHAPE_SAMPLES:
+                sample(undecided)
+                series, undecided = self.__regress_dims(samples, dims, minv, maxv)
+
+            varnames = {0: key}
+            for idx, (members, source, expr) in enumerate(series):
+                varnames[idx + 1] = key
+                if expr is not None:
+                    name = str(len(shapeengine.tensor_epxr) + 1)
+                    while name in shapeengine.variables:
+                        name += '_'
+                    varnames[idx + 1] = name
+                    shapeengine.add_expr(name, varnames[source], expr)
+                for tname, i in members:
+                    shapeengine.update_tensor_desc(tname, i, varnames[idx + 1])
 
+        for key in input_range.keys():
+            shapeengine.update_variable(key, input_range[key][1])
+        shapeengine.update_variables()
+        for tname in maxshapes.keys():
+            if shapeengine.get_tensorshape(tname) != list(maxshapes[tname]):
+                warnings.warn(f'{tname} error:{shapeengine.get_tensorshape(tname)} is not {maxshapes[tname]}')
+        for key in input_range.keys():
             shapeengine.update_variable(key, input_range[key][0])
-            srcrange = [minv, ] + vranges
-            dstranges = [srcrange]
-            tensor_range_map = {}
-
-            def range_in_rangelist(range, rangelist):
-                for i, r in enumerate(rangelist):
-                    flag = True
-                    for sv, dv in zip(range, r):
-                        if sv != dv:
-                            flag = False
-                            break
-                    if flag:
-                        return i
-                return -1
+        shapeengine.update_variables()
+        return shapeengine
+
+    def __infer_shapes(self, shapeengine):
+        inputs = shapeengine.generate_input()
+        for name in inputs.keys():
+            if name in self.tensormap.keys():
+                inputs[name] = inputs[name].astype(self.tensormap[name].dtype)
+        self.shape_infer(inputs)
+        return {name: list(self.tensormap[name].get_shape()) for name in self.dynamics}
+
+    def __regress_dims(self, samples, dims, minv, maxv):
+        """Explain how dimensions depend on one variable.
 
-            for vkey in mintensormap.keys():
-                if vkey in input_desc.keys():
+        Returns a list of [dimensions, source, expression], source 0 is the variable itself and source k the
+        k-th entry of the list, and a value of the variable for which the samples do not decide yet.
+        """
+        vals = sorted(samples.keys())
+        xs = numpy.arange(minv, maxv + 1)
+        sources = [xs]
+        groups = {}
+        for tname, i in dims:
+            groups.setdefault(tuple(samples[val][tname][i] for val in vals), []).append((tname, i))
+        series = []
+        votes = numpy.zeros(len(xs), dtype=numpy.int64)
+        for dst, members in groups.items():
+            found = []
+            for sidx, source in enumerate(sources):
+                if source is None:
                     continue
-                shapes = [mintensormap[vkey].shape, shapes_range[0][vkey].shape, shapes_range[1][vkey].shape]
-                for i in range(len(shapes[0])):
-                    if shapes[0][i] != shapes[1][i] or shapes[0][i] != shapes[2][i]:
-                        newrange = [val[i] for val in shapes]
-                        idx = range_in_rangelist(newrange, dstranges)
-                        if idx == -1:
-                            nodename = self.producedby[vkey][0]
-                            srcvalkey = []
-                            for iname in self.nodemap[nodename].input:
-                                desc = shapeengine.get_tensor_desc(iname)
-                                if desc is not None:
-                                    for ele in desc:
-                                        if not isinstance(ele, int) and ele.isnumeric():
-                                            if int(ele) >= vcount:
-                                                srcvalkey.append(ele)
-                            dstranges.append(newrange)
-                            vidx = vcount + len(dstranges) - 1
-                            if len(srcvalkey) == 0:
-                                expr = ValueExpr(dstranges[0], newrange)
-                                err = expr.error(dstranges[0], newrange)
-                                srckey = key
-                            else:
-                                # TODO multiple src variables comparison
-                                srckey = srcvalkey[0]
-                                expr = ValueExpr(tensor_range_map[srckey], newrange)
-                                err = expr.error(tensor_range_map[srckey], newrange)
-                            if err > 0:
-                                warnings.warn(f'src key {srckey} dst key {vidx} error:{err}')
-
-                            shapeengine.add_expr(str(vidx), srckey, expr)
-                            tensor_range_map[str(vidx)] = newrange
-                            valkey = str(vidx)
-                        else:
-                            if idx == 0:
-                                valkey = key
-                            else:
-                                vidx = vcount + idx
-                                valkey = str(vidx)
-                        shapeengine.update_tensor_desc(vkey, i, valkey)
-            vcount += len(dstranges)
-        return shapeengine
+                for p, q, r in _fit_floor_exprs([int(source[val - minv]) for val in vals], dst):
+                    found.append((r, p, sidx, q, (p * source + q) // r))
+            if len(found) == 0:
+                expr = ValueExpr([minv, (minv + maxv) // 2, maxv],
+                                 [dst[vals.index(val)] for val in (minv, (minv + maxv) // 2, maxv)])
+                err = expr.error(vals, dst)
+                if err > 0:
+                    warnings.warn(f'dimension {members[0]} is no linear function, error:{err}')
+                series.append([members, 0, expr])
+                sources.append(None)
+                continue
+            found.sort(key=lambda x: x[:4])
+            preds = numpy.stack([x[4] for x in found])
+            votes += preds.min(axis=0) != preds.max(axis=0)
+            r, p, sidx, q, pred = found[0]
+            if (p, q, r) == (1, 0, 1) and sidx == 0:
+                series.append([members, 0, None])
+                sources.append(None)
+            else:
+                series.append([members, sidx, ValueExpr.floor_expr(p, q, r)])
+                sources.append(pred)
+        for val in vals:
+            votes[val - minv] = 0
+        undecided = int(xs[int(votes.argmax())]) if votes.any() else None
+        return series, undecided
 
     def compress_memory(self, size_padding=64):
         """两遍内存压缩算法（Best-Fit 策略）。
-- 
2.43.0


From d2a3dc80ff611001f2a12907334e50b16c0f4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 33/75] fix: a fixed If branch and a fixed TopK size replace
 exactly what they fix

---
 onnx_tool/graph.py | 287 ++++++++++++++++++++++++++++-----------------
 onnx_tool/node.py  |   4 +-
 2 files changed, 182 insertions(+), 109 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 459387e..cb9c941 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -130,6 +130,49 @@ class ValueExpr():
             return math.floor(x)
 
 
+def _nested_graphs(proto):
+    return [g for att in proto.attribute for g in ([att.g] if att.type == att.GRAPH else att.graphs)]
+
+
+def _nested_names(g):
+    """Every tensor name inside a graph."""
+    names = {t.name for t in list(g.initializer) + list(g.input) + list(g.output)}
+    for node in g.node:
+        names.update(node.input)
+        names.update(node.output)
+        for sub in _nested_graphs(node):
+            names.update(_nested_names(sub))
+    return names
+
+
+def _rename_node(node, names, used, fresh):
+    """Rename what a node, and what is nested in it, takes from outside."""
+    node.input[:] = [names.get(t, t) for t in node.input]
+    for sub in _nested_graphs(node):
+        _rename_graph(sub, names, used, fresh)
+
+
+def _rename_graph(g, names, used, fresh):
+    names = dict(names)
+
+    def define(tname):
+        # a name of this graph must not hide one around it
+        names.pop(tname, None)
+        if tname != '' and tname in used:
+            names[tname] = fresh(tname)
+        return names.get(tname, tname)
+
+    for tname in dict.fromkeys(t.name for t in list(g.initializer) + list(g.input)):
+        define(tname)
+    for local in list(g.initializer) + list(g.input):
+        local.name = names.get(local.name, local.name)
+    for node in g.node:
+        _rename_node(node, names, used, fresh)
+        node.output[:] = [define(t) for t in node.output]
+    for info in list(g.output) + list(g.value_info):
+        info.name = names.get(info.name, info.name)
+
+
 # how many values of one variable are tried at most, and the largest stride
 MAX_SHAPE_SAMPLES = 64
 MAX_SHAPE_STRIDE = 64
@@ -226,6 +269,7 @@ class Graph():
         self.valid_shape = False
         self.valid_profile = False
         self.sparse_model = False
+        self.fixed_topk_name = None
 
         if g is not None:
             self.__init_graph_from_onnxproto__(g, self.cfg.node_rename)
@@ -411,91 +455,143 @@ class Graph():
         self.dynamics.extend(t for t in self.producedby.keys() if t not in self.input)
 
     def __remove_if__(self):
-        while True:
-            prekeys = list(self.nodemap.keys())
-            remove_list = []
-            selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
-            for n in prekeys:
-                node = self.nodemap[n]
-                if node.op_type == 'If':
-                    # remove condition node chain
-                    sub_input = []
-                    for node_proto in node.attr[selected_branch].node:
-                        for ipn in node_proto.input:
-                            sub_input.append(ipn)
-                    node_list = [node.name]
-                    while len(node_list):
-                        remove = True
-                        sname = node_list.pop(0)
-                        snode = self.nodemap[sname]
-                        for ipn in snode.input:
-                            if ipn == '':
-                                continue
-                            if len(self.consumedby[ipn]) == 1 and ipn not in sub_input:  # consumed by this node
-                                if ipn in self.producedby.keys():
-                                    node_list.append(self.producedby[ipn][0])
-                            self.consumedby[ipn].remove(sname)
-                        if remove:
-                            remove_list.append(sname)
-                    # add branch node
-                    names = []
-                    for node_proto in node.attr[selected_branch].node:
-                        self.__add_node_from_proto__(node_proto)
-                        names.append(node_proto.name)
-
-                    # revise output name
-                    preoutput = node.attr[selected_branch].output[0].name
-                    newoutput = node.output[0]
-                    for newname in names:
-                        newnode = self.nodemap[newname]
-                        for tensor in newnode.input:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                        for tensor in newnode.output:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                            if tensor in self.consumedby:
-                                for consumer in self.consumedby[tensor]:
-                                    self.nodemap[newnode.name].nextnodes.append(self.nodemap[consumer])
-                        for i, v in enumerate(newnode.output):
-                            if v == preoutput:
-                                newnode.output[i] = newoutput
-                                self.producedby[newoutput].append(newname)
-            if len(remove_list)==0:
-                break
-            for n in remove_list:
-                self.remove_node(n)
+        if all(node.op_type != 'If' for node in self.nodemap.values()):
+            return
+        branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
+        # names the inner tensors of a branch must not take
+        used = set(self.tensormap) | {o.name for o in self.rawgraph.output}
+        for node in self.nodemap.values():
+            used.update(node.input + node.output + node.captured)
+            if node.op_type != 'If' and isinstance(node.proto, onnx.NodeProto):
+                for sub in _nested_graphs(node.proto):
+                    used.update(_nested_names(sub))
+        conditions = []
+        forwards = []
+        nodes = []
+        pending = list(reversed(self.nodemap.values()))
+        while pending:
+            node = pending.pop()
+            if node.op_type == 'If':
+                self.nodemap.pop(node.name)
+                conditions.extend(node.input)
+                pending.extend(reversed(self.__inline_branch__(node, branch, used, forwards)))
+            else:
+                nodes.append(node)
+        self.nodemap = {node.name: node for node in nodes}
+        self.__update_consumer_producer__()
+        # nobody may need an output that another tensor was forwarded to
+        self.__remove_unused__(forwards, False)
+        self.__remove_unused__(conditions)
+
+    def __inline_branch__(self, ifnode, branch, used, forwards):
+        """The nodes of one branch, wired to the outputs of the If node."""
+        g = onnx.GraphProto()
+        g.CopyFrom(ifnode.attr[branch])
+        avoid = _nested_names(g) | used
+        names = {}
+
+        def fresh(name):
+            count = 1
+            while f'{name}_{count}' in avoid:
+                count += 1
+            avoid.add(f'{name}_{count}')
+            return f'{name}_{count}'
+
+        produced = [t for node in g.node for t in node.output if t != '']
+        forwarded = []
+        for inner, output in zip([o.name for o in g.output], ifnode.output):
+            if output == '':
+                continue
+            if inner in produced and inner not in names:
+                names[inner] = output
+            else:
+                # an initializer, an outer tensor, or a tensor listed twice
+                forwarded.append((inner, output))
+        for tname in [i.name for i in g.initializer] + produced:
+            if tname not in names:
+                names[tname] = fresh(tname) if tname in used else tname
+            used.add(names[tname])
+        for initial in g.initializer:
+            initial.name = names[initial.name]
+            self.tensormap[initial.name] = Tensor(initial)
+            self.initials.append(initial.name)
+        for valinfo in list(g.value_info) + list(g.output):
+            valinfo.name = names.get(valinfo.name, valinfo.name)
+            if valinfo.name not in self.tensormap:
+                self.tensormap[valinfo.name] = Tensor(valinfo)
+        for proto in g.node:
+            _rename_node(proto, names, used, fresh)
+            proto.output[:] = [names.get(t, t) for t in proto.output]
+            if proto.op_type != 'If':
+                for sub in _nested_graphs(proto):
+                    used.update(_nested_names(sub))
+        for inner, output in forwarded:
+            g.node.append(onnx.helper.make_node('Identity', [names.get(inner, inner)], [output]))
+            forwards.append(output)
+        nodes = []
+        for proto in g.node:
+            node = create_node(proto)
+            self.__name_node__(node, self.cfg.node_rename or len(node.name) == 0)
+            self.node_count += 1
+            node.input.extend(proto.input)
+            node.output.extend(proto.output)
+            self.nodemap[node.name] = node
+            for tname in node.input + node.captured + node.output:
+                if tname not in self.tensormap:
+                    self.tensormap[tname] = Tensor(tname)
+            nodes.append(node)
+        return nodes
+
+    def __remove_unused__(self, tensors, chain=True):
+        """Remove what only computed these tensors, unless somebody needs it."""
+        users = {}
+        for node in self.nodemap.values():
+            for tname in set(node.input + node.captured):
+                users[tname] = users.get(tname, 0) + 1
+        outputs = set(self.output) | {o.name for o in self.rawgraph.output}
+        pending = list(tensors)
+        while pending:
+            for name in self.producedby.get(pending.pop(), []):
+                node = self.nodemap.get(name)
+                if node is None or any(t != '' and (t in outputs or users.get(t)) for t in node.output):
+                    continue
+                self.nodemap.pop(name)
+                for tname in set(node.input + node.captured):
+                    users[tname] -= 1
+                    if chain:
+                        pending.append(tname)
+        self.__update_consumer_producer__()
 
     def __set_fixed_topk(self, fixed_k):
-        prekeys = list(self.nodemap.keys())
-        fixed_k_tensor_name = 'constant_fixed_topk_k'
-        remove_list = []
-        topk_node = 0
-        for n in prekeys:
-            node = self.nodemap[n]
-            if node.op_type == 'TopK':
-                # remove condition node chain
-                node_list = []
-                ktensor = node.input[1]
-                if len(self.consumedby[ktensor]) == 1:
-                    node_list = [self.producedby[ktensor][0]]
-                while len(node_list):
-                    remove = True
-                    sname = node_list.pop(0)
-                    snode = self.nodemap[sname]
-                    for ipn in snode.input:
-                        if ipn == '':
-                            continue
-                        if len(self.consumedby[ipn]) == 1:  # consumed by this node
-                            node_list.append(self.producedby[ipn][0])
-                    if remove:
-                        remove_list.append(sname)
-                topk_node += 1
-                node.input[1] = fixed_k_tensor_name
-        if topk_node > 0:
-            self.add_initial(fixed_k_tensor_name, numpy.array([fixed_k]))
-        for n in remove_list:
-            self.remove_node(n)
+        topk_nodes = [node for node in self.nodemap.values() if node.op_type == 'TopK']
+        if len(topk_nodes) == 0:
+            return
+        replaced = []
+        if self.fixed_topk_name is None and any(len(node.input) > 1 for node in topk_nodes):
+            name, count = 'constant_fixed_topk_k', 1
+            used = set(self.tensormap)
+            for node in self.nodemap.values():
+                used.update(node.input + node.output)
+                if isinstance(node.proto, onnx.NodeProto):
+                    for sub in _nested_graphs(node.proto):
+                        used.update(_nested_names(sub))
+            while name in used:
+                name = f'constant_fixed_topk_k_{count}'
+                count += 1
+            self.fixed_topk_name = name
+        if self.fixed_topk_name is not None:
+            if self.fixed_topk_name in self.initials:
+                self.initials.remove(self.fixed_topk_name)
+            self.add_initial(self.fixed_topk_name, numpy.array([fixed_k]))
+        for node in topk_nodes:
+            if len(node.input) < 2:
+                # k was an attribute first
+                node.set_attr('k', int(fixed_k))
+            elif node.input[1] != self.fixed_topk_name:
+                replaced.append(node.input[1])
+                node.input[1] = self.fixed_topk_name
+        self.__update_consumer_producer__()
+        self.__remove_unused__(replaced)
 
     def __name_node__(self, node, generate, reserved=()):
         # nodes are addressed by name, so every node needs one of its own
@@ -507,31 +603,6 @@ class Graph():
                 node.name = base + '_' + str(count)
                 count += 1
 
-    def __add_node_from_proto__(self, node_proto):
-        newnode = create_node(node_proto)
-        self.__name_node__(newnode, len(newnode.name) == 0)
-        self.node_count += 1
-        for tensor in node_proto.input:
-            if tensor == '':
-                newnode.input.append(tensor)
-                continue
-            if tensor in self.producedby:
-                for producer in self.producedby[tensor]:
-                    newnode.prevnodes.append(self.nodemap[producer])
-            if tensor not in self.consumedby:
-                self.consumedby[tensor] = []
-            self.consumedby[tensor].append(newnode.name)
-            newnode.input.append(tensor)
-        for tensor in node_proto.output:
-            if tensor == '':
-                newnode.output.append(tensor)
-                continue
-            if tensor not in self.producedby:
-                self.producedby[tensor] = []
-            self.producedby[tensor].append(newnode.name)
-            newnode.output.append(tensor)
-        self.nodemap[newnode.name] = newnode
-
     def __init_graph_from_onnxproto__(self, g, noderename):
         if g is None:
             return
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 97d28d9..c0283a9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1952,10 +1952,12 @@ class TopKNode(Node):
     def __init__(self, node):
         super().__init__(node)
         self.add_default_value('axis', None)
+        self.add_default_value('k', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        k = intensors[1].get_numpy()[0]
+        # k was an attribute first
+        k = intensors[1].get_numpy()[0] if len(intensors) > 1 else self.k
         # the axis attribute may not appear in the node (default: the last axis)
         axis = _axes_neg2pos(len(xshape), [-1 if self.axis is None else self.axis])[0]
         newshape = []
-- 
2.43.0


From fa8452bc1e6881f79e01b9c258a8ae16a03a4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 34/75] fix: weight quantization keeps codes in range, scales
 above zero, and every user of the weight

---
 onnx_tool/graph.py        |   2 +-
 onnx_tool/quantization.py | 111 +++++++++++++++++++++-----------------
 2 files changed, 63 insertions(+), 50 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index cb9c941..9bae9a3 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -332,7 +332,7 @@ class Graph():
                         self.dynamics.append(tname)
         else:
             for initial in self.rawgraph.initializer:
-                if initial.name not in self.initials:
+                if initial.name not in self.initials and initial.name in self.tensormap:
                     self.initials.append(initial.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 6b2781f..e64bdb6 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -17,8 +17,8 @@ def find_min_max(f32: numpy.ndarray, block):
     if block == 0:
         return numpy.array(f32.min(keepdims=False)), numpy.array(f32.max(keepdims=False))
     if block == -1:
-        fmin = [f32[i, :].min() for i in numpy.ndindex(*f32.shape[:-1])]
-        fmax = [f32[i, :].max() for i in numpy.ndindex(*f32.shape[:-1])]
+        fmin = [f32[i].min() for i in numpy.ndindex(*f32.shape[:-1])]
+        fmax = [f32[i].max() for i in numpy.ndindex(*f32.shape[:-1])]
         return numpy.array(fmin), numpy.array(fmax)
     if block > 0:
         fmin = []
@@ -34,27 +34,38 @@ def find_min_max(f32: numpy.ndarray, block):
         return numpy.array(fmin), numpy.array(fmax)
 
 
+def _stored_scale(scale, bits):
+    # 4 bits: the scale is kept in half precision, where it fits
+    scale = max(scale, float(numpy.finfo(numpy.float32).tiny)) if scale > 0 else 1.
+    info = numpy.finfo(numpy.float16)
+    if bits == 4 and float(info.tiny) <= scale <= float(info.max):
+        half = numpy.float16(scale)
+        # never less than needed, the largest values would be cut off
+        return numpy.float32(half if float(half) >= scale else numpy.nextafter(half, info.max))
+    return numpy.float32(scale)
+
+
 def get_symmetric_parameter(fmin, fmax, bits):
-    alpha = max(abs(fmin), abs(fmax))
+    alpha = max(abs(float(fmin)), abs(float(fmax)))
     scale = alpha / (2 ** (bits - 1) - 1)
-    return scale, 0
+    return _stored_scale(scale, bits), 0
 
 
 def get_asymmetric_u8_parameter(fmin, fmax, bits):
-    fmin = min(fmin, 0)
-    fmax = max(fmax, 0)
+    fmin = min(float(fmin), 0)
+    fmax = max(float(fmax), 0)
     delta = fmax - fmin
-    scale = delta / (2 ** bits - 1)
-    zp = round(-fmin / scale)
+    scale = _stored_scale(delta / (2 ** bits - 1), bits)
+    zp = min(round(-fmin / float(scale)), 2 ** bits - 1)
     return scale, zp
 
 
-def symmetric_quant(fval, scale, *agrs):
-    return numpy.clip(round(fval / scale), -128, 127)
+def symmetric_quant(fval, scale, zp=0, bits=8):
+    return numpy.clip(round(float(fval) / float(scale)), -2 ** (bits - 1), 2 ** (bits - 1) - 1)
 
 
-def asymmetric_quant(fval, scale, zp):
-    return numpy.clip(round(fval / scale) + zp, 0, 255)
+def asymmetric_quant(fval, scale, zp, bits=8):
+    return numpy.clip(round(float(fval) / float(scale)) + zp, 0, 2 ** bits - 1)
 
 
 def symmetric_dequant(qval, scale, *agrs):
@@ -77,7 +88,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
         scale, zp = get_param(fmin, fmax, bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale, zp)
+            Q[i] = quant_val(f32[i], scale, zp, bits)
         return Q, numpy.array(scale), numpy.array(zp)
     if len(fmin.shape) == 1:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -86,7 +97,8 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         for i in range(len(fmin)):
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]])
+            row = numpy.ravel_multi_index(i[:-1], f32.shape[:-1])
+            Q[i] = quant_val(f32[i], scale[row], zp[row], bits)
         return Q, scale, zp
     if len(fmin.shape) == 2:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -96,27 +108,25 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
             blk_idx = i[1] // block
-            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx])
+            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx], bits)
         return Q, scale, zp
 
 def pack_4bits(Q_int:numpy.ndarray):
     shape=Q_int.shape
     s4shape=list(shape)
-    s4shape[-1]=shape[-1]//2
+    # an odd last dimension leaves the last high nibble 0
+    s4shape[-1]=(shape[-1]+1)//2
     s4arr=numpy.ones(s4shape,dtype=numpy.uint8)
     import ctypes
     def cvt_s8bits_to_s4bits(v8):
-        sigbit=v8&0x80
-        sigbit=sigbit>>4
-        v8=v8&0x7
-        return v8|sigbit
+        return v8&0xf
     for i in numpy.ndindex(*s4shape):
         rawi=list(i)
         rawi[-1]*=2
         rawi1=list(rawi)
         rawi1[-1]+=1
         lo4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi)]).value)
-        hi4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi1)]).value)
+        hi4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi1)]).value) if rawi1[-1]<shape[-1] else 0
         val=lo4|(hi4<<4)
         s4arr[i]=val
     return s4arr
@@ -130,20 +140,25 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         if tname.endswith(suf):
             return
     f32arr = g.tensormap[tname].numpy
+    if f32arr is None or f32arr.size == 0:
+        return
     if f32arr.dtype not in [numpy.float32, numpy.float16, numpy.float64]:
         return
     if len(f32arr.shape) != 2:
         return
     if f32arr.dtype is not numpy.float32:
         f32arr = f32arr.astype(numpy.float32)
-    name=g.consumedby[tname][0]
-    node=g.nodemap[name]
-    if isinstance(node,onnx_tool.node.GemmNode):
-        if node.transB==0:
-            f32arr=f32arr.transpose()
-    node.set_attr('OTQ_Block',block)
-    node.set_attr('OTQ_Type',type)
-    node.set_attr('OTQ_Bits',bits)
+    users = [node for node in g.nodemap.values() if tname in node.input]
+    if len(users) == 0:
+        return
+    new_names = [tname + suf for suf in quantized_suffix]
+    if tname in g.output or any(tname in node.captured for node in g.nodemap.values()) \
+            or any(name in g.tensormap for name in new_names):
+        warnings.warn(f"{tname} is needed as it is, not quantized")
+        return
+    if all(isinstance(node, onnx_tool.node.GemmNode) and node.transB == 0
+           and [i for i, name in enumerate(node.input) if name == tname] == [1] for node in users):
+        f32arr = f32arr.transpose()
     Q, scale, zp = quantize(f32arr, block, type, bits)
     tname_q = tname + '_ot_q'
     tname_s = tname + '_ot_s'
@@ -155,33 +170,31 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         else:
             Q = Q.astype(numpy.int8)
     if bits == 4:
-        scale = scale.astype(numpy.float16)
+        # quantized with scales of half precision, if all of them fit
+        with numpy.errstate(over='ignore', under='ignore'):
+            half = scale.astype(numpy.float16)
+        if numpy.array_equal(half, scale):
+            scale = half
         if type == 'asym':
             Q = pack_4bits(Q)
             zp = zp.astype(numpy.uint8)
         else:
             Q = pack_4bits(Q)
 
+    # the caller may be walking through the initials
+    g.initials = [name for name in g.initials if name != tname]
+    g.tensormap.pop(tname)
     g.add_initial(tname_q, Q)
     g.add_initial(tname_s, scale)
+    inputs = [tname_q, tname_s]
     if type == 'asym':
         g.add_initial(tname_z, zp)
-    for nname in g.consumedby[tname]:
-        node = g.nodemap[nname]
-        idx = node.input.index(tname)
-        node.input.remove(tname)
-        if type == 'asym':
-            node.input.insert(idx, tname_z)
-        node.input.insert(idx, tname_s)
-        node.input.insert(idx, tname_q)
-        if tname_q not in g.consumedby.keys():
-            g.consumedby[tname_q] = nname
-            g.consumedby[tname_s] = nname
-            g.consumedby[tname_z] = nname
-        else:
-            g.consumedby[tname_q].append(nname)
-            g.consumedby[tname_s].append(nname)
-            g.consumedby[tname_z].append(nname)
-    g.consumedby.pop(tname)
-    g.initials.remove(tname)
-    g.tensormap.pop(tname)
+        inputs.append(tname_z)
+    for node in users:
+        node.set_attr('OTQ_Block', block)
+        node.set_attr('OTQ_Type', type)
+        node.set_attr('OTQ_Bits', bits)
+        node.input = [new for old in node.input for new in (inputs if old == tname else [old])]
+    for new in inputs:
+        g.consumedby[new] = [node.name for node in users for old in node.input if old == new]
+    g.consumedby.pop(tname, None)
-- 
2.43.0


From a8504f963be2fede4f25010a1bce43b68cd3c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 35/75] fix: exported weights get a readable file of their own;
 interface edits and command-line arguments work as documented

---
 onnx_tool/__init__.py | 41 +++++++++++++++++++++++++----------------
 onnx_tool/__main__.py | 34 ++++++++++++++++++++--------------
 2 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 54d8974..9510f83 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -32,35 +32,37 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
     def save_numpy(arr: numpy.ndarray, fp16: bool, filename):
         if fp16 and arr.dtype in [numpy.float32, numpy.float64]:
             arr = arr.astype(numpy.float16)
+        elif arr.dtype.isbuiltin == 2:  # numpy cannot read back files of bfloat16, float8, ...: store their bytes
+            arr = arr.view(f'V{arr.dtype.itemsize}')
         numpy.save(filename, arr)
 
     g = model.graph
+    # one file per initializer: names that need no change keep it, the others avoid the names already in use
+    fnames, taken = {}, set()
+    for key in sorted(g.initials, key=lambda k: '/' in k or '\\' in k):
+        fname = base = key.replace('/', '_').replace('\\', '_')
+        suffix = 0
+        while fname in taken:
+            suffix += 1
+            fname = f'{base}_{suffix}'
+        taken.add(fname)
+        fnames[key] = fname
     if savefolder is not None:
         os.makedirs(savefolder, exist_ok=True)
     else:
         savefolder = './'
     if tensornames is None:
         for key in g.initials:
-            name = key
-            if '/' in key:
-                name = key.replace('/', '_')
-            if '\\' in key:
-                name = key.replace('\\', '_')
             narr = g.tensormap[key].numpy
-            save_numpy(narr, fp16, os.path.join(savefolder, name + '.npy'))
+            save_numpy(narr, fp16, os.path.join(savefolder, fnames[key] + '.npy'))
 
     else:
         for name in tensornames:
             if name not in g.initials:
                 warnings.warn(f'tensor {name} not found ')
                 continue
-            fname = name
-            if '/' in name:
-                fname = name.replace('/', '_')
-            if '\\' in name:
-                fname = name.replace('\\', '_')
             narr = g.tensormap[name].numpy
-            save_numpy(narr, fp16, os.path.join(savefolder, fname + '.npy'))
+            save_numpy(narr, fp16, os.path.join(savefolder, fnames[name] + '.npy'))
 
 
 # These ops are created by onnx exporter, they are out of programmer's sense
@@ -118,6 +120,15 @@ def model_reorder_nodes(m, save_model: str, ):
     model.save_model(save_model)
 
 
+def __io_dims__(value: onnx.ValueInfoProto, rank: int):
+    shape = value.type.tensor_type.shape
+    if not value.type.tensor_type.HasField('shape'):  # unknown rank: any shape fits
+        for _ in range(rank):
+            shape.dim.add()
+    assert (rank == len(shape.dim))
+    return shape.dim
+
+
 def model_io_modify(m, save_model: str, custom_io):
     '''
         Args:
@@ -134,8 +145,7 @@ def model_io_modify(m, save_model: str, custom_io):
             if input.name in keylist:
                 shapes = custom_io[input.name].split('x')
                 # maybe consider create a new valueinfoproto
-                dim = input.type.tensor_type.shape.dim
-                assert (len(shapes) == len(dim))
+                dim = __io_dims__(input, len(shapes))
                 for nb, shapeval in zip(dim, shapes):
                     if shapeval.isnumeric():
                         if nb.HasField('dim_param'):
@@ -150,8 +160,7 @@ def model_io_modify(m, save_model: str, custom_io):
             if output.name in keylist:
                 shapes = custom_io[output.name].split('x')
                 # maybe consider create a new valueinfoproto
-                dim = output.type.tensor_type.shape.dim
-                assert (len(shapes) == len(dim))
+                dim = __io_dims__(output, len(shapes))
                 for nb, shapeval in zip(dim, shapes):
                     if shapeval.isnumeric():
                         if nb.HasField('dim_param'):
diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index a7a8a54..7ea9261 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -54,11 +54,12 @@ parser = get_parser()
 args = parser.parse_args()
 
 
+__numpytypes__ = {'f32': numpy.float32, 'f64': numpy.float64, 'f16': numpy.float16, 'int32': numpy.int32,
+                  'int64': numpy.int64, 'int8': numpy.int8, 'uint8': numpy.uint8, 'bool': numpy.bool_}
+
+
 def __str2numpytype__(strtype):
-    if strtype == 'f32':
-        return numpy.float32
-    if strtype == 'int32':
-        return numpy.int32
+    return __numpytypes__[strtype]
 
 
 def __str2list__(strshape, type):
@@ -72,22 +73,28 @@ def __str2list__(strshape, type):
 def __args2dynamicshapes__(args: [str]):
     dic = {}
     for arg in args:
+        # name:type:shape:values, name:type:shape or name:shape. The name itself may contain ':'
         strs = arg.split(':')
-        dtype = __str2numpytype__(strs[1])
-        shape = __str2list__(strs[2], int)
-        if len(strs) > 3:
-            arr = numpy.array(__str2list__(strs[3], dtype), dtype=dtype).reshape(shape)
+        values = None
+        if len(strs) >= 4 and strs[-3] in __numpytypes__:
+            values = strs.pop()
+        shape = __str2list__(strs.pop(), int)
+        dtype = numpy.float32
+        if len(strs) >= 2 and strs[-1] in __numpytypes__:
+            dtype = __str2numpytype__(strs.pop())
+        if values is not None:
+            arr = numpy.array(__str2list__(values, dtype), dtype=dtype).reshape(shape)
         else:
             arr = numpy.zeros(shape, dtype=dtype)
-        dic[strs[0]] = arr
+        dic[':'.join(strs)] = arr
     return dic
 
 
 def __args2strshapes__(args: [str]):
     dic = {}
     for arg in args:
-        strs = arg.split(':')
-        dic[strs[0]] = strs[1]
+        name, shape = arg.rsplit(':', 1)
+        dic[name] = shape
     return dic
 
 
@@ -103,6 +110,5 @@ elif args.mode == 'export_tensors':
 elif args.mode == 'constant_folding':
     onnx_tool.model_constant_folding(args.in_, args.out)
 elif args.mode == 'io_modify':
-    if args.dynamic_shapes is not None:
-        shapedic = __args2strshapes__(args.dynamic_shapes)
-        onnx_tool.model_io_modify(args.in_, args.out, shapedic)
+    shapedic = __args2strshapes__(args.dynamic_shapes) if args.dynamic_shapes is not None else None
+    onnx_tool.model_io_modify(args.in_, args.out, shapedic)
-- 
2.43.0


From 5584d36e9b354407c2323cb0279a1456f8abf3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:29 +0000
Subject: [PATCH 36/75] fix: binary files refuse what the format cannot hold
 instead of writing corrupt data

---
 onnx_tool/serialization.py | 99 ++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 53 deletions(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index 15edf42..deeae6e 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -6,7 +6,7 @@ import struct
 
 
 def __write_float2buf(buf, f):
-    ba = struct.pack('f', f)
+    ba = struct.pack('<f', f)
     buf += ba
     return buf
 
@@ -24,10 +24,10 @@ def __write_len2buf(buf, src, bytes=4):
 
 
 def __write_str2buf(buf, string):
-    if not '\0' in string:
-        string += '\0'
-    barr = bytes(string, 'utf-8')
-    buf += barr
+    barr = string if isinstance(string, bytes) else bytes(string, 'utf-8')
+    if b'\0' in barr:
+        raise ValueError(f'Unsupported string {string}: zero bytes end a string')
+    buf += barr + b'\0'
     return buf
 
 
@@ -43,24 +43,40 @@ DTYPE_UINT16 = 8
 DTYPE_INT64 = 9
 
 
-def __write_data_type(buf, data):
-    if isinstance(data, str) or isinstance(data, bytes):
-        buf = __write_int2buf(buf, DTYPE_STR)
-    if isinstance(data, int):
-        buf = __write_int2buf(buf, DTYPE_INT)
-    if isinstance(data, float):
-        buf = __write_int2buf(buf, DTYPE_FLOAT)
-    return buf
+def __data_type(data):
+    if isinstance(data, (str, bytes)):
+        return DTYPE_STR
+    if isinstance(data, (int, numpy.integer)):
+        return DTYPE_INT
+    if isinstance(data, (float, numpy.floating)):
+        return DTYPE_FLOAT
+    raise ValueError(f'Unsupported value {data} of type {type(data)}')
+
+
+def __write_value(buf, data):
+    dtype = __data_type(data)
+    if dtype == DTYPE_STR:
+        return __write_str2buf(buf, data)
+    if dtype == DTYPE_INT:
+        return __write_int2buf(buf, int(data))
+    return __write_float2buf(buf, float(data))
 
 
 def __write_data(buf, data):
-    buf = __write_data_type(buf, data)
-    if isinstance(data, str):
-        buf = __write_str2buf(buf, data)
-    if isinstance(data, int):
-        buf = __write_int2buf(buf, data)
-    if isinstance(data, float):
-        buf = __write_float2buf(buf, data)
+    buf = __write_int2buf(buf, __data_type(data))
+    return __write_value(buf, data)
+
+
+def __write_attribute(buf, attrval):
+    if not isinstance(attrval, (list, tuple)):
+        attrval = [attrval]
+    dtypes = [__data_type(val) for val in attrval]
+    if len(set(dtypes)) > 1:
+        raise ValueError(f'Unsupported attribute {attrval}: values of different types')
+    buf = __write_len2buf(buf, attrval)
+    buf = __write_int2buf(buf, dtypes[0] if dtypes else DTYPE_INT)
+    for val in attrval:
+        buf = __write_value(buf, val)
     return buf
 
 
@@ -91,7 +107,6 @@ def __write_ndarray(buf, array: numpy.ndarray):
 
 
 def serialize_shape_engine(engine: ShapeEngine, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_len2buf(writebuf, engine.variables.keys())
     for name in engine.variables.keys():
@@ -120,12 +135,11 @@ def serialize_shape_engine(engine: ShapeEngine, filepath):
         writebuf = __write_str2buf(writebuf, srcname)
         writebuf = serialize_expr(writebuf, expr[1])
 
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
 
 
 def serialize_graph(graph: onnx_tool.Graph, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_len2buf(writebuf, graph.nodemap.keys())
     for name in graph.nodemap.keys():
@@ -139,42 +153,21 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
         for output in node.output:
             writebuf = __write_str2buf(writebuf, output)
 
-        writebuf = __write_len2buf(writebuf, node.attr.keys())
-
-        def write_attribute(buf, attrval):
-            def write_value(buf, val):
-                if isinstance(val, str):
-                    buf = __write_str2buf(buf, val)
-                if isinstance(val, bytes):
-                    buf += val + b'\0'
-                if isinstance(val, int):
-                    buf = __write_int2buf(buf, val)
-                if isinstance(val, float):
-                    buf = __write_float2buf(buf, val)
-                return buf
-
-            if not isinstance(attrval, list):
-                attrval = [attrval]
-            buf = __write_len2buf(buf, attrval)
-            buf = __write_data_type(buf, attrval[0])
-            for val in attrval:
-                buf = write_value(buf, val)
-            return buf
-
-        for key in node.attr.keys():
+        attr = {key: val for key, val in node.attr.items() if val is not None}
+        writebuf = __write_len2buf(writebuf, attr.keys())
+        for key in attr.keys():
             writebuf = __write_str2buf(writebuf, key)
-            writebuf = write_attribute(writebuf, node.attr[key])
+            writebuf = __write_attribute(writebuf, attr[key])
     writebuf = __write_len2buf(writebuf, graph.initials)
     for name in graph.initials:
         writebuf = __write_str2buf(writebuf, name)
         tensor = graph.tensormap[name]
         writebuf = __write_ndarray(writebuf, tensor.numpy)
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
 
 
 def serialize_memory_compression(compressed_mem: {}, max_shape: {}, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_int2buf(writebuf, compressed_mem[1], 8)
     compress_map = compressed_mem[0]
@@ -188,5 +181,5 @@ def serialize_memory_compression(compressed_mem: {}, max_shape: {}, filepath):
     for key in max_shape.keys():
         writebuf = __write_str2buf(writebuf, key)
         writebuf = __write_int2buf(writebuf, max_shape[key], 8)
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
-- 
2.43.0


From d203654937fd444bab16fcc5e7338389245b8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:04 +0000
Subject: [PATCH 37/75] fix: sparsity reports the block pattern that was found,
 for constants and replaced weights too

---
 onnx_tool/graph.py  |  6 ++++++
 onnx_tool/tensor.py | 16 +++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9bae9a3..9ef3ed6 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1699,6 +1699,7 @@ class Graph():
         self.macs = [0.0, 0.0]
         self.params = 0
         self.memory = 0
+        self.sparse_model = False
         self.profiled_nodes = [k for k, v in self.nodemap.items() if not exclude_ops or v.op_type not in exclude_ops]
         static_tensors = set()
         for key in self.profiled_nodes:
@@ -1712,6 +1713,9 @@ class Graph():
             for input in node.input:
                 tensor = self.tensormap[input]
                 itensors.append(tensor)
+                if tensor.type == STATIC_TENSOR and tensor.sparsity is None:
+                    # the value of a constant node
+                    tensor.sparsity_search()
                 if tensor.sparsity is not None and tensor.sparsity['ratio'] > max_sparsity:
                     max_sparsity = tensor.sparsity['ratio']
                     block_sparsity = tensor.sparsity
@@ -1744,6 +1748,8 @@ class Graph():
             node.io_params = ret[1]
             node.static_params = ret[2]
             node.sparsity = block_sparsity
+            if max_sparsity > 0.4:
+                self.sparse_model = True
             self.macs[0] += macs
             self.params += _params
             self.memory += _memory
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index e62066e..55e97a3 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -199,7 +199,8 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
         validsize = 1
         prevalid0 = True
         prevalid1 = True
-        validratio = ratio
+        validratio0 = ratio
+        validratio1 = ratio
         while True:
             # try axis=1
             if prevalid1 and arr.shape[1] % initsize == 0:
@@ -209,7 +210,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio1 = (arrsum == initsize).sum() / arrsum.size
                 if ratio1 > ratio - deltar_thres:
                     valid1 = True
-                    validratio = ratio1
+                    validratio1 = ratio1
                 else:
                     valid1 = False
             else:
@@ -223,7 +224,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio0 = (arrsum == initsize).sum() / arrsum.size
                 if ratio0 > ratio - deltar_thres:
                     valid0 = True
-                    validratio = ratio0
+                    validratio0 = ratio0
                 else:
                     valid0 = False
             else:
@@ -245,7 +246,10 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
 
-        return (validsize if prevalid0 else 1, validsize if prevalid1 else 1), validratio
+        # one axis only: the one which reached this size, the better one if both did
+        if prevalid0 and (not prevalid1 or validratio0 > validratio1):
+            return (validsize, 1), validratio0
+        return (1, validsize), validratio1
 
     if len(arr.shape) == 4:  # conv2d
         initsize = 2
@@ -298,7 +302,8 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             ratios = (arrsum == (validsize * validsize)).sum() / arrsum.size
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
-        if validratio0 > validratio1:
+        # one axis only: the one which reached this size, the better one if both did
+        if prevalid0 and (not prevalid1 or validratio0 > validratio1):
             return (validsize, 1), validratio0
         return (1, validsize), validratio1
 
@@ -352,6 +357,7 @@ class Tensor():
     def update_proto(self, data: numpy.ndarray):
         self.update_tensor(data)
         self.proto = self.make_tensor_proto()
+        self.sparsity_search()
 
     def update_shape(self, shape: list):
         if isinstance(shape, numpy.ndarray):
-- 
2.43.0


From 8939ef387282c15695b8be80143d0f902696a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 38/75] fix: Builder no longer changes the shared architecture
 table

---
 onnx_tool/llm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 72520c5..3e4ad5a 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -247,10 +247,13 @@ class Builder():
                 setattr(self, 'n_positions', 1024)
         if not hasattr(self, 'model_type'):
             setattr(self, 'model_type', '')
+        if getattr(self, 'num_key_value_heads', None) is None:
+            self.num_key_value_heads = self.num_attention_heads
+        # a copy: the settings of this model must not change the architecture
         if ArchMap.__contains__(self.architectures[0]):
-            self.arch_config = ArchMap[self.architectures[0]]
+            self.arch_config = dict(ArchMap[self.architectures[0]])
         else:
-            self.arch_config = ArchMap['LlamaForCausalLM']
+            self.arch_config = dict(ArchMap['LlamaForCausalLM'])
         if hasattr(self, 'mlp_bias'):
             self.arch_config['mlp_bias'] = self.mlp_bias
         if hasattr(self, 'attention_bias'):
-- 
2.43.0


From dc8d32b676019d1ece16fcf868a124aec0f4182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 39/75] fix: default weight name of position embeddings

---
 onnx_tool/llm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 3e4ad5a..048326c 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -1253,7 +1253,7 @@ class Builder():
             pos = create_tensor('position', DYNAMIC_TENSOR, [self.batch, self.seq_len], numpy.int64)
             self.graph.input.append('position')
             self.graph.tensormap[pos.name] = pos
-            pos_out = self.add_embedding(pos, self.n_positions, self.w_map['embedding']['pos'])
+            pos_out = self.add_embedding(pos, self.n_positions, self.w_map['embedding'].get('pos', 'model.embed_positions'))
             cur = self.add_eltop(pos_out, cur, 'Add', 'embedding_pos_add')
 
         cur = self.add_layers(cur)
-- 
2.43.0


From a67ae4ffd96104a2a38327d19cf7ebeb46efcf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 40/75] fix: Rope and LogitSoftCapping count each element once

---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c0283a9..daf6b9b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -715,6 +715,7 @@ class LogitSoftCappingNode(PWNode):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = TANH_MACS + MUL_MACS + DIV_MACS
+        self.ratio = 1
 
 
 @NODE_REGISTRY.register()
@@ -735,6 +736,7 @@ class RopeNode(PWNode):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = COS_MACS + SIN_MACS + MUL_MACS * 2
+        self.ratio = 1
 
     def shape_infer(self, intensors, outtensors):
         # Rope 有多个输入 [x, cos, sin, position]，输出 shape 与 x 相同
-- 
2.43.0


From c9a473028d5cc95af18fbd2723d36805b33256cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 41/75] fix: MoE without shared expert has no shared gate

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index daf6b9b..011d63d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3036,7 +3036,7 @@ class MoENode(Node):
             # down_proj: B × S × SI × H
             macs += B * S * SI * H
 
-        if not self.no_shared_gate:
+        if not self.no_shared_gate and not self.no_shared_expert:
             # Shared expert gate (Qwen3.5-MoE): sigmoid + multiply
             macs += B * S * H * (EXP_MACS + MUL_MACS)
 
@@ -3048,7 +3048,7 @@ class MoENode(Node):
 
         # Static params: router(full) + routed experts(scaled if partial) + shared expert(full, if present)
         total_activations = B * S * k
-        shared_static = 0 if self.no_shared_expert else 3 * SI * H
+        shared_static = 0 if self.no_shared_expert else 3 * SI * H + (0 if self.no_shared_gate else H)
         if total_activations < E:
             static_params = H * E + total_activations * 3 * I * H + shared_static
         else:
-- 
2.43.0


From f7405073ec769162340ed33c7e276631205b301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 42/75] fix: print_profile shows milliseconds under its ms
 header

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 048326c..fa0586b 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -1210,7 +1210,7 @@ class Builder():
             row.append(num2str(int(node.llm_profile['Memory']), csvformat))
             Device = node.llm_profile['Device']
             if self.llm_profile[2] > 0:
-                row.append('{:.5f}'.format(Device['latency'][2]))
+                row.append('{:.5f}'.format(Device['latency'][2] * 1e3))
                 row.append(Device['Bottleneck'])
             row.append(tuple2str(node.inshape, splitch))
             row.append(tuple2str(node.outshape, splitch))
@@ -1220,7 +1220,7 @@ class Builder():
         row.append(num2str(self.llm_profile[0], csvformat))
         row.append(num2str(self.llm_profile[1], csvformat))
         if self.llm_profile[2] > 0:
-            row.append(num2str(self.llm_profile[2], csvformat))
+            row.append('{:.5f}'.format(self.llm_profile[2] * 1e3))
             row.append('_')
         row.append('_')
         row.append('_')
-- 
2.43.0


From 7702ae8073fc35bd82173caa9e13b108bd356d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 43/75] fix: GDN counts its own operations and carries its
 output projection

---
 onnx_tool/llm.py  | 18 ++++++++++++++----
 onnx_tool/node.py | 22 ++++++----------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index fa0586b..de20c10 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -737,8 +737,8 @@ class Builder():
         v = self.add_mm(inp, self.hidden_size, v_out, qkv_bias, namev)
 
         # Q/K per-head RMS norm
-        q = self.add_qk_norm(q, self.layer_prefix + 'self_attn.q_norm', num_q_heads)
-        k = self.add_qk_norm(k, self.layer_prefix + 'self_attn.k_norm', num_q_heads)
+        q = self.add_qk_norm(q, self.layer_prefix + 'self_attn.q_norm', num_q_heads, qk_head_dim)
+        k = self.add_qk_norm(k, self.layer_prefix + 'self_attn.k_norm', num_q_heads, qk_head_dim)
 
         # GDN 融合算子
         attrs = {
@@ -752,6 +752,16 @@ class Builder():
         }
         nod = create_node(TmpNodeProto(self.layer_prefix + 'gdn', 'GDN', attrs))
         nod.input = [q.name, k.name, v.name]
+        # output projection
+        nameo = self.layer_prefix + self.w_map['attention']['o']
+        params = [(nameo + '.weight', [v_out, self.hidden_size])]
+        if o_bias:
+            params.append((nameo + '.bias', [self.hidden_size]))
+        for wname, wshape in params:
+            w = create_tensor(wname, STATIC_TENSOR, wshape, numpy.float32)
+            self.graph.initials.append(w.name)
+            self.graph.tensormap[w.name] = w
+            nod.input.append(w.name)
         o = create_tensor(self.layer_prefix + 'gdn.output', DYNAMIC_TENSOR,
                           [self.batch, self.seq_len, self.hidden_size], numpy.float32)
         nod.output = [o.name]
@@ -991,14 +1001,14 @@ class Builder():
 
         self.graph.output.append(vision_features.name)
 
-    def add_qk_norm(self, inp, name, num_heads):
+    def add_qk_norm(self, inp, name, num_heads, head_dim=None):
         """Per-head Q/K RMS norm (Qwen3 特有).
         
         输入: [B, S, num_heads * head_dim]
         输出: [B, S, num_heads * head_dim]
         对每个 head 独立做 RMS norm，weight shape = [head_dim]
         """
-        head_dim = self.head_size
+        head_dim = head_dim or self.head_size
         # Reshape: [B, S, num_heads * head_dim] -> [B, S, num_heads, head_dim]
         # 做 LayerNormalization（沿最后一个维度，即 head_dim）
         attrs = {'epsilon': self.rms_norm_eps, 'type': 'rms'}
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 011d63d..4cf660a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2901,11 +2901,10 @@ class GDNNode(Node):
         """Calculate MACs for Gated DeltaNet.
 
         Operations:
-        - Q/K/V projections: 3 × (B × S × hidden_size × head_dim × num_heads)
-        - Q/K norm: 2 × (B × S × num_q_heads × qk_head_dim)
         - Conv1d on Q/K: 2 × (B × num_q_heads × S × qk_head_dim × conv_kernel)
         - DeltaNet attention: B × num_v_heads × S × qk_head_dim × S (simplified)
-        - Output projection: B × S × hidden_size × hidden_size
+        - Output projection: B × S × (num_v_heads × v_head_dim) × hidden_size
+        (the Q/K/V projections and the Q/K norms are nodes of their own)
         """
         x_shape = intensors[0].get_shape()
         B = x_shape[0]
@@ -2919,16 +2918,6 @@ class GDNNode(Node):
 
         macs = 0
 
-        # Q projection: B × S × H × (Nq × Dqk)
-        macs += B * S * H * Nq * Dqk
-        # K projection: B × S × H × (Nq × Dqk)
-        macs += B * S * H * Nq * Dqk
-        # V projection: B × S × H × (Nv × Dv)
-        macs += B * S * H * Nv * Dv
-
-        # Q/K RMS norm: 2 × B × S × Nq × Dqk
-        macs += 2 * B * S * Nq * Dqk
-
         # Depthwise conv on Q: B × Nq × S × Dqk × K
         macs += B * Nq * S * Dqk * K
         # Depthwise conv on K: B × Nq × S × Dqk × K
@@ -2946,11 +2935,12 @@ class GDNNode(Node):
 
         # Output projection: B × S × (Nv × Dv) × H
         macs += B * S * Nv * Dv * H
+        if self.o_bias:
+            macs += B * S * H * ADD_MACS
 
         io_params = B * S * H * 2  # input + output
-        # Q/K/V/O projections are separate MatMul nodes, not counted here.
-        # GDN itself has no static weights (all weights are in the projection nodes).
-        static_params = 0
+        # Q/K/V projections are separate MatMul nodes, the output projection is part of this one.
+        static_params = sum(volume(intensors[i].get_shape()) for i in self.static_inputs)
         return [macs, io_params, static_params]
 
 
-- 
2.43.0


From 8ffe16460043ca7777f52f7965d151e14ecf57c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:03 +0000
Subject: [PATCH 44/75] fix: keep MatMul weights that come from the ONNX file
 as they are

Only safetensors store them as [N, K].
---
 inference/infer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inference/infer.py b/inference/infer.py
index 3667ca0..96d10e6 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -630,6 +630,7 @@ class GraphInfer:
 
             tensor_obj = self._cg.tensormap[tname]
             t = None
+            from_safetensors = False
 
             # 1. 尝试从 safetensors 加载
             if self.safetensors_path:
@@ -640,6 +641,7 @@ class GraphInfer:
                 elif tname in self.weight_map and self.weight_map[tname] in safetensors_data:
                     st_name = self.weight_map[tname]
                     t = safetensors_data[st_name].to(device=self.device, dtype=self.dtype)
+                from_safetensors = t is not None
 
             # 2. fallback: 从 ONNX 内嵌数据加载
             if t is None and tensor_obj.numpy is not None:
@@ -650,7 +652,9 @@ class GraphInfer:
             if t is not None:
                 # safetensors 的 2D weight 为 [N, K]，MatMul 的 weight 转置为 [K, N]
                 op_type = const_consumer.get(tname, ('', {}))[0] if tname in const_consumer else ''
-                t = self._transpose_safetensors_tensor(t, op_type)
+                # ONNX 内嵌的 weight 已是 [K, N]，不转置
+                if from_safetensors:
+                    t = self._transpose_safetensors_tensor(t, op_type)
 
                 # 如果该 constant 有消费者 kernel 且实现了 preprocess_weight，则调用
                 if tname in const_consumer:
-- 
2.43.0


From 022c07e52d9a9dc34ab4949cfd0386afbbe57dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:03 +0000
Subject: [PATCH 45/75] fix: transpose Gemm's B for computed and shared
 operands, and never its bias

---
 inference/kernels.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 7a56599..d704cab 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -287,9 +287,9 @@ class GemmKernel(Kernel):
 
         if transA:
             A = A.T
-        # B 已在 preprocess_weight 中预转置，无需再次转置
-        # if transB:
-        #     B = B.T
+        # 常量 B 已在 preprocess_weight 中按转置后的内存布局存放，此处只交换维度
+        if transB:
+            B = B.T
 
         torch.mm(A, B, out=outputs[0])
         if alpha != 1.0:
@@ -299,10 +299,13 @@ class GemmKernel(Kernel):
 
     @staticmethod
     def preprocess_weight(src_name: str, tensor: torch.Tensor, attrs: Dict) -> torch.Tensor:
-        """Gemm weight 前处理：如果 transB=1，预转置 weight 矩阵。"""
+        """Gemm weight 前处理：如果 transB=1，按转置后的内存布局存放 weight 矩阵。
+
+        返回的 tensor 维度与值不变（其它节点也可使用），run 中的 B.T 是连续的。
+        """
         transB = attrs.get('transB', 0)
-        if transB:
-            tensor = tensor.T.contiguous()
+        if transB and tensor.dim() == 2:
+            tensor = tensor.T.contiguous().T
         return tensor
 
 
-- 
2.43.0


From 2983aee3f2b0f5081e92bddbfe01df2109ff0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:03 +0000
Subject: [PATCH 46/75] fix: take every input's shape from that input

The first input's shape was used for all of them.
---
 inference/infer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 96d10e6..e9496a9 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -146,7 +146,7 @@ class GraphInfer:
             self._node_input_names.append(list(node.input))
             self._node_output_names.append(list(node.output))
 
-        # shape 缓存：forward 中 _update_shape_from_input 之后批量刷新，
+        # shape 缓存：forward 中 _update_shape_from_inputs 之后批量刷新，
         # 避免每个 tensor 都调用 shape_engine.get_tensorshape()
         self._tensor_shape_cache: Dict[str, List[int]] = {}
 
@@ -246,8 +246,7 @@ class GraphInfer:
             当 profile=True 时，outputs 额外包含 '__profile__' key
         """
         # 根据输入 tensor 的实际形状更新 shape_engine 变量
-        first_input = next(iter(inputs.values()))
-        shape_changed = self._update_shape_from_input(first_input)
+        shape_changed = self._update_shape_from_inputs(inputs)
 
         # 批量刷新所有 tensor 的 shape 缓存（仅当 shape 实际变化时）
         if shape_changed or not self._tensor_shape_cache:
@@ -709,8 +708,8 @@ class GraphInfer:
         """将 self.dtype (torch.dtype) 转为对应的 numpy dtype"""
         return np.dtype(self._get_torch_dtype_name(self.dtype))
 
-    def _update_shape_from_input(self, input_tensor: torch.Tensor) -> bool:
-        """根据实际输入 tensor 的形状，更新 shape_engine 中的变量。
+    def _update_shape_from_inputs(self, inputs: Dict[str, torch.Tensor]) -> bool:
+        """根据各输入 tensor 的实际形状，更新 shape_engine 中的变量。
 
         Returns:
             True 如果 shape 变量发生了实际变化，False 如果与上次相同。
@@ -719,10 +718,13 @@ class GraphInfer:
             self._last_var_values = {}
         changed = False
         for input_name, desc in self.input_desc.items():
-            if len(desc) == len(input_tensor.shape):
+            if input_name not in inputs:
+                continue
+            shape = inputs[input_name].shape
+            if len(desc) == len(shape):
                 for i, dim_var in enumerate(desc):
                     if isinstance(dim_var, str) and dim_var in self.input_range:
-                        actual_val = int(input_tensor.shape[i])
+                        actual_val = int(shape[i])
                         old_val = self._last_var_values.get(dim_var)
                         if old_val != actual_val:
                             self.shape_engine.update_variable(dim_var, actual_val)
-- 
2.43.0


From c6dcb1ee1cd49f6c3bca682f606d8afc28adb461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:03 +0000
Subject: [PATCH 47/75] fix: plan the inference pool for the type its tensors
 are kept in

Blocks of bool and 8-bit results were smaller than the views on them.
---
 inference/infer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inference/infer.py b/inference/infer.py
index e9496a9..465a3f7 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -75,6 +75,11 @@ class GraphInfer:
 
         # 5. 提取 compute graph（此时 tensormap 中的 shape 已是最大值）
         self._cg = self._graph.get_compute_graph()
+        # pool 中所有张量都以 self.dtype 存放，规划内存时也按此类型计算
+        # （否则 bool/uint8 等输出的块会小于其视图，与其它张量重叠）
+        for tname in self._cg.dynamics:
+            if tname in self._cg.tensormap:
+                self._cg.tensormap[tname].update_dtype(np_dtype)
 
         # 6. 内存压缩 + MemoryPool（compress_memory 基于最大 shape 分配）
         # 使用 graph.py 的 compress_memory（Best-Fit 策略，按大小降序重排以减少碎片）
-- 
2.43.0


From 10e7db81e4177d616f869b6d4e202e567725c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:03 +0000
Subject: [PATCH 48/75] fix: never reuse the views of an inference call that
 failed

---
 inference/infer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 465a3f7..b42f96e 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -256,6 +256,7 @@ class GraphInfer:
         # 批量刷新所有 tensor 的 shape 缓存（仅当 shape 实际变化时）
         if shape_changed or not self._tensor_shape_cache:
             self._tensor_shape_cache.clear()
+            self._last_node_tensors = None
             for tname in self._tensor_blocks:
                 try:
                     shape = self.shape_engine.get_tensorshape(tname)
@@ -304,8 +305,7 @@ class GraphInfer:
         rebuild_cache = (shape_changed
                          or not hasattr(self, '_last_node_tensors')
                          or self._last_node_tensors is None)
-        if rebuild_cache:
-            self._last_node_tensors = []
+        node_tensors = []
 
         for idx, node_name in enumerate(self._node_names):
             node = self._cg.nodemap[node_name]
@@ -411,12 +411,16 @@ class GraphInfer:
 
             # 缓存本次构建的 tensor 视图
             if rebuild_cache:
-                self._last_node_tensors.append((input_tensors, output_tensors))
+                node_tensors.append((input_tensors, output_tensors))
 
             # --- 检查输入输出重叠 ---
             if debug:
                 self._check_overlap(node)
 
+        # 全部节点执行完才可复用视图（中途出错时不留下不完整的缓存）
+        if rebuild_cache:
+            self._last_node_tensors = node_tensors
+
         # XPU 同步，确保所有 kernel 执行完毕
         if self.device == 'xpu' and not profile:
             torch.xpu.synchronize()
-- 
2.43.0


From b840b290853b9aea11665919ef6e844617f10c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 49/75] fix: pad convolution and pooling as the ONNX attributes
 say

The width padding was taken from the height's end, uneven padding, auto_pad,
ceil_mode, dilated MaxPool and count_include_pad were ignored.
---
 inference/kernels.py | 77 ++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 32 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index d704cab..c99ed5b 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -91,15 +91,29 @@ class Kernel:
 # 常用辅助函数
 # ===========================================================================
 
-def _to_2d_padding(pads: tuple, auto_pad=None) -> int:
-    """将 ONNX pad 格式转为 F.pad 需要的格式"""
-    if auto_pad is not None and auto_pad != b'NOTSET' and auto_pad != b'':
-        return None  # 由调用方处理 auto_pad
-    if len(pads) == 2:
-        return (pads[0], pads[0], pads[1], pads[1])
-    elif len(pads) == 4:
-        return (pads[0], pads[1], pads[2], pads[3])
-    return 0
+def _pads_2d(attrs: Dict, x, out, kernel, strides, dilations):
+    """二维窗口算子的填充，返回 F.pad 格式 (w_begin, w_end, h_begin, h_end) 的
+    ONNX 填充，以及 ceil_mode 在末端额外需要的填充。
+
+    ONNX pads 格式: [h_begin, w_begin, h_end, w_end]，
+    auto_pad 的 SAME_* 由输出形状推出。
+    """
+    pads = attrs.get('pads', None)
+    auto_pad = attrs.get('auto_pad', 'NOTSET')
+    if isinstance(auto_pad, bytes):
+        auto_pad = auto_pad.decode()
+    begin, end, extra = [0, 0], [0, 0], [0, 0]
+    for i in range(2):
+        size, osize = int(x.shape[2 + i]), int(out.shape[2 + i])
+        need = (osize - 1) * strides[i] + dilations[i] * (kernel[i] - 1) + 1
+        if auto_pad in ('SAME_UPPER', 'SAME_LOWER'):
+            total = max(need - size, 0)
+            begin[i] = total // 2 if auto_pad == 'SAME_UPPER' else total - total // 2
+            end[i] = total - begin[i]
+        elif auto_pad != 'VALID' and pads:
+            begin[i], end[i] = int(pads[i]), int(pads[i + len(pads) // 2])
+        extra[i] = max(need - (size + begin[i] + end[i]), 0)
+    return (begin[1], end[1], begin[0], end[0]), (0, extra[1], 0, extra[0])
 
 
 # ===========================================================================
@@ -117,16 +131,13 @@ class ConvKernel(Kernel):
         bias = inputs[2] if len(inputs) > 2 else None
 
         strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
         dilations = attrs.get('dilations', (1, 1))
         group = attrs.get('group', 1)
 
-        # ONNX pads 格式: [x1_begin, x2_begin, x1_end, x2_end]
-        if len(pads) == 2:
-            pad_h, pad_w = pads[0], pads[1]
-        elif len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
+        pads, _ = _pads_2d(attrs, x, outputs[0], w.shape[2:], strides, dilations)
+        pad_h, pad_w = pads[2], pads[0]
+        if pads[0] != pads[1] or pads[2] != pads[3]:
+            x = F.pad(x, pads)
             pad_h, pad_w = 0, 0
 
         result = F.conv2d(
@@ -353,16 +364,19 @@ class AveragePoolKernel(Kernel):
         x = inputs[0]
         kernel_shape = attrs.get('kernel_shape', (1, 1))
         strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
-
-        if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
+        dilations = (1, 1)
 
-        outputs[0].copy_(
-            F.avg_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
-        )
+        pads, extra = _pads_2d(attrs, x, outputs[0], kernel_shape, strides, dilations)
+        if not any(pads) and not any(extra):
+            outputs[0].copy_(F.avg_pool2d(x, kernel_shape, stride=strides))
+            return
+        # 窗口内参与平均的元素所占比例：填充的元素由 count_include_pad 决定，
+        # ceil_mode 超出的部分从不参与
+        inside = torch.ones_like(x)
+        inside = F.pad(inside, pads, value=1.0 if attrs.get('count_include_pad', 0) else 0.0)
+        inside = F.avg_pool2d(F.pad(inside, extra), kernel_shape, stride=strides)
+        result = F.avg_pool2d(F.pad(F.pad(x, pads), extra), kernel_shape, stride=strides)
+        outputs[0].copy_(result / inside)
 
 
 @KernelRegistry.register("MaxPool")
@@ -374,15 +388,14 @@ class MaxPoolKernel(Kernel):
         x = inputs[0]
         kernel_shape = attrs.get('kernel_shape', (1, 1))
         strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
-
-        if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
+        dilations = attrs.get('dilations', (1, 1))
 
+        pads, extra = _pads_2d(attrs, x, outputs[0], kernel_shape, strides, dilations)
+        pads = tuple(p + e for p, e in zip(pads, extra))
+        if any(pads):
+            x = F.pad(x, pads, value=float('-inf'))
         outputs[0].copy_(
-            F.max_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
+            F.max_pool2d(x, kernel_shape, stride=strides, dilation=dilations)
         )
 
 
-- 
2.43.0


From eaf8a90ffcf705e914e47df7447ded3892f834e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 50/75] fix: take results' shapes from the shape engine

Reshape, Expand and Tile need no shape operand, which the compute graph does
not keep; Squeeze and Unsqueeze handle axes given as an operand or negative.
---
 inference/kernels.py | 53 +++++++++-----------------------------------
 1 file changed, 11 insertions(+), 42 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index c99ed5b..4c78935 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -248,23 +248,9 @@ class ReshapeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # inputs[1] 是 shape tensor，但 memory pool 里可能没有它
-        # 直接用 attrs 或 inputs[1] 的值
-        if len(inputs) > 1 and inputs[1] is not None:
-            shape = inputs[1].cpu().tolist()
-        else:
-            shape = attrs.get('shape', [])
-        # 处理 0 维度: 保持原形状
-        x = inputs[0]
-        new_shape = []
-        si = 0
-        for s in shape:
-            if s == 0:
-                new_shape.append(x.shape[si])
-            else:
-                new_shape.append(int(s))
-            si += 1
-        outputs[0].copy_(x.reshape(new_shape))
+        # inputs[1] 是 shape tensor，但由 shape 计算节点得到时 compute graph 里没有它，
+        # 输出 tensor 的 shape 已由 shape engine 推导
+        outputs[0].copy_(inputs[0].reshape(outputs[0].shape))
 
 
 @KernelRegistry.register("Transpose")
@@ -463,11 +449,8 @@ class SqueezeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        axes = attrs.get('axes', None)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].squeeze(dim=tuple(axes)))
-        else:
-            outputs[0].copy_(inputs[0].squeeze())
+        # axes 来自 attrs (ONNX 11-) 或 inputs[1] (ONNX 13+)，结果 shape 已由 shape engine 推导
+        outputs[0].copy_(inputs[0].reshape(outputs[0].shape))
 
 
 @KernelRegistry.register("Unsqueeze")
@@ -476,19 +459,8 @@ class UnsqueezeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 13+) 或 attrs['axes'] (ONNX 11-)
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
-
-        if axes is not None:
-            t = inputs[0]
-            for ax in sorted(axes):
-                t = t.unsqueeze(ax)
-            outputs[0].copy_(t)
-        else:
-            outputs[0].copy_(inputs[0].unsqueeze(0))
+        # axes 来自 inputs[1] (ONNX 13+) 或 attrs['axes'] (ONNX 11-)，结果 shape 已由 shape engine 推导
+        outputs[0].copy_(inputs[0].reshape(outputs[0].shape))
 
 
 @KernelRegistry.register("Shape")
@@ -554,8 +526,8 @@ class ExpandKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        shape = inputs[1].cpu().tolist()
-        outputs[0].copy_(inputs[0].expand(shape))
+        # 目标 shape 与输入双向广播，结果 shape 已由 shape engine 推导
+        outputs[0].copy_(inputs[0].expand(outputs[0].shape))
 
 
 @KernelRegistry.register("Tile")
@@ -564,11 +536,8 @@ class TileKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        repeats = inputs[1].cpu().tolist()
-        # 确保 repeats 是扁平列表
-        if isinstance(repeats, list) and len(repeats) == 1 and isinstance(repeats[0], list):
-            repeats = repeats[0]
-        repeats = [int(r) for r in repeats]
+        # repeats 可能由 shape 计算节点得到，从输出 shape 推出
+        repeats = [int(o) // int(i) for i, o in zip(inputs[0].shape, outputs[0].shape)]
         outputs[0].copy_(inputs[0].repeat(*repeats))
 
 
-- 
2.43.0


From ed0844acaad81e8cf9fea190ada15e3760872b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 51/75] fix: gather with scalar, many-dimensional and negative
 indices

---
 inference/kernels.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 4c78935..1eaa344 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -484,16 +484,12 @@ class GatherKernel(Kernel):
         indices = inputs[1].long()
         # ONNX Gather: data[indices, ...] 沿 axis 维收集
         # 使用 torch.index_select 更高效且语义正确
-        if indices.dim() > 1:
-            # 多维 indices: 需要先展平再 reshape
-            flat_idx = indices.reshape(-1)
-            result = torch.index_select(data, axis, flat_idx)
-            # 恢复 indices 的维度
-            out_shape = list(data.shape)
-            out_shape[axis] = indices.numel()
-            outputs[0].copy_(result.reshape(out_shape))
-        else:
-            outputs[0].copy_(torch.index_select(data, axis, indices))
+        # 负索引从末尾数起
+        flat_idx = indices.reshape(-1)
+        flat_idx = torch.where(flat_idx < 0, flat_idx + data.shape[axis], flat_idx)
+        result = torch.index_select(data, axis, flat_idx)
+        # 恢复 indices 的维度（data[:axis] + indices + data[axis + 1:]）
+        outputs[0].copy_(result.reshape(outputs[0].shape))
 
 
 @KernelRegistry.register("Cast")
-- 
2.43.0


From 086c25495181eba6e2f8dc5af04de0b8b404ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 52/75] fix: pad each dimension by its own begin and end

Reversing the flat list exchanged them; an omitted value and axes are accepted.
---
 inference/kernels.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 1eaa344..2aa4663 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -686,22 +686,36 @@ class PadKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        pads = inputs[1].cpu().tolist() if len(inputs) > 1 else attrs.get('pads', [0, 0, 0, 0])
+        pads = inputs[1].cpu().tolist() if len(inputs) > 1 and inputs[1] is not None else attrs.get('pads', [0] * 2 * x.dim())
+        pads = [int(p) for p in pads]
         mode = attrs.get('mode', 'constant')
-        value = inputs[2].item() if len(inputs) > 2 else attrs.get('value', 0.0)
+        if isinstance(mode, bytes):
+            mode = mode.decode()
+        value = inputs[2].item() if len(inputs) > 2 and inputs[2] is not None else attrs.get('value', 0.0)
+        if len(inputs) > 3 and inputs[3] is not None:
+            # pads 只针对 axes 列出的维度
+            axes = [int(a) % x.dim() for a in inputs[3].cpu().tolist()]
+            full = [0] * 2 * x.dim()
+            for i, a in enumerate(axes):
+                full[a], full[a + x.dim()] = pads[i], pads[i + len(axes)]
+            pads = full
 
         # ONNX pads: [x1_begin, x2_begin, ..., x1_end, x2_end, ...]
-        # F.pad: (x1_begin, x1_end, x2_begin, x2_end, ...)
+        # F.pad 格式从最后一个维度开始: (..., x2_begin, x2_end, x1_begin, x1_end)
         ndim = len(pads) // 2
         pad_tuple = []
-        for i in range(ndim):
+        for i in reversed(range(ndim)):
             pad_tuple.append(pads[i])           # begin
             pad_tuple.append(pads[i + ndim])     # end
-        # F.pad 格式从最后一个维度开始
-        pad_tuple = tuple(pad_tuple[::-1])
 
-        torch_mode = {'constant': 'constant', 'reflect': 'reflect', 'edge': 'replicate'}.get(mode, 'constant')
-        outputs[0].copy_(F.pad(x, pad_tuple, mode=torch_mode, value=value))
+        if mode == 'constant':
+            outputs[0].copy_(F.pad(x, tuple(pad_tuple), mode='constant', value=value))
+            return
+        # reflect/replicate 不接受对前两维的（空）填充
+        while len(pad_tuple) > 2 and len(pad_tuple) // 2 > max(x.dim() - 2, 1) and not any(pad_tuple[-2:]):
+            pad_tuple = pad_tuple[:-2]
+        torch_mode = {'reflect': 'reflect', 'edge': 'replicate', 'wrap': 'circular'}[mode]
+        outputs[0].copy_(F.pad(x, tuple(pad_tuple), mode=torch_mode))
 
 
 @KernelRegistry.register("Resize")
-- 
2.43.0


From dfd2c6f71b4ae2b3bded198472d4e268a70be032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 53/75] fix: slice backwards in inference

---
 inference/kernels.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 2aa4663..20f8843 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -668,13 +668,17 @@ class SliceKernel(Kernel):
         axes = [int(v) for v in inputs[3].cpu().tolist()] if len(inputs) > 3 and inputs[3] is not None else attrs.get('axes', list(range(len(starts))))
         steps = [int(v) for v in inputs[4].cpu().tolist()] if len(inputs) > 4 and inputs[4] is not None else attrs.get('steps', [1] * len(starts))
 
-        # 构建切片
+        # 构建切片（torch 的切片不支持负步长）
         slices = [slice(None)] * x.ndim
         for i, ax in enumerate(axes):
             s = int(starts[i]) if i < len(starts) else 0
             e = int(ends[i]) if i < len(ends) else x.shape[ax]
             step = int(steps[i]) if i < len(steps) else 1
-            slices[ax] = slice(s, e, step)
+            if step < 0:
+                picked = list(range(*slice(s, e, step).indices(int(x.shape[ax]))))
+                x = torch.index_select(x, ax, torch.tensor(picked, dtype=torch.int64, device=x.device))
+            else:
+                slices[ax] = slice(s, e, step)
 
         outputs[0].copy_(x[tuple(slices)])
 
-- 
2.43.0


From 5e32b93fc1f01c79a3bd44cb6a03adc1d14b4314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 54/75] fix: reduce over all dimensions when inference is given
 no axes

---
 inference/kernels.py | 53 ++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 20f8843..9fef30f 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -116,6 +116,17 @@ def _pads_2d(attrs: Dict, x, out, kernel, strides, dilations):
     return (begin[1], end[1], begin[0], end[0]), (0, extra[1], 0, extra[0])
 
 
+def _reduce_axes(inputs, attrs) -> tuple:
+    """归约的维度，来源: inputs[1] (ONNX 18+) 或 attrs['axes']，都没有则为全部维度"""
+    if len(inputs) > 1 and inputs[1] is not None:
+        axes = tuple(int(x) for x in inputs[1].cpu().tolist())
+    else:
+        axes = tuple(attrs.get('axes', None) or ())
+    if not axes and not attrs.get('noop_with_empty_axes', 0):
+        axes = tuple(range(inputs[0].dim()))
+    return axes
+
+
 # ===========================================================================
 # 注册算子内核
 # ===========================================================================
@@ -616,16 +627,12 @@ class ReduceMeanKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 18+) 或 attrs['axes']
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
+        axes = _reduce_axes(inputs, attrs)
+        if not axes:
+            outputs[0].copy_(inputs[0])
+            return
         keepdims = attrs.get('keepdims', 1)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].mean(dim=tuple(axes), keepdim=bool(keepdims)))
-        else:
-            outputs[0].copy_(inputs[0].mean(keepdim=bool(keepdims)))
+        outputs[0].copy_(inputs[0].mean(dim=axes, keepdim=bool(keepdims)))
 
 
 @KernelRegistry.register("ReduceSum")
@@ -634,16 +641,12 @@ class ReduceSumKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 18+) 或 attrs['axes']
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
+        axes = _reduce_axes(inputs, attrs)
+        if not axes:
+            outputs[0].copy_(inputs[0])
+            return
         keepdims = attrs.get('keepdims', 1)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].sum(dim=tuple(axes), keepdim=bool(keepdims)))
-        else:
-            outputs[0].copy_(inputs[0].sum(keepdim=bool(keepdims)))
+        outputs[0].copy_(inputs[0].sum(dim=axes, keepdim=bool(keepdims)))
 
 
 @KernelRegistry.register("Identity")
@@ -1106,16 +1109,12 @@ class ReduceMaxKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 18+) 或 attrs['axes']
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
+        axes = _reduce_axes(inputs, attrs)
+        if not axes:
+            outputs[0].copy_(inputs[0])
+            return
         keepdims = attrs.get('keepdims', 1)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].amax(dim=tuple(axes), keepdim=bool(keepdims)))
-        else:
-            outputs[0].copy_(inputs[0].amax(keepdim=bool(keepdims)))
+        outputs[0].copy_(inputs[0].amax(dim=axes, keepdim=bool(keepdims)))
 
 
 @KernelRegistry.register("Split")
-- 
2.43.0


From 9973a5107f0d5163d6ccc785021306198b390a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:32 +0000
Subject: [PATCH 55/75] fix: count tensors captured by nested graphs as used

---
 onnx_tool/graph.py | 55 +++++++++++++++++++++++++++++++++++-----------
 onnx_tool/node.py  | 12 ++++++++--
 2 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9ef3ed6..9aa7c80 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -5,7 +5,7 @@ import warnings
 import numpy
 import onnx
 
-from .node import create_node
+from .node import create_node, captured_by_node
 from .tensor import STATIC_TENSOR, DYNAMIC_TENSOR
 from .tensor import get_attribute_data, Tensor, volume
 from .utils import VERSION, tuple2str, ModelConfig, print_table, num2str
@@ -65,7 +65,7 @@ def _data_inputs(n):
     data = list(n.input)
     for tensor in shape_tensors:
         data.remove(tensor)
-    return data
+    return data + n.captured
 
 
 class ValueExpr():
@@ -436,7 +436,7 @@ class Graph():
         self.consumedby = {}
         for name in self.nodemap:
             node = self.nodemap[name]
-            for tensor in node.input:
+            for tensor in node.input + node.captured:
                 if tensor == '':
                     continue
                 if tensor not in self.consumedby:
@@ -617,9 +617,9 @@ class Graph():
             self.__name_node__(newnode, noderename or len(newnode.name) == 0,
                                () if noderename else given_names)
             self.node_count += 1
-            for tensor in node.input:
+            newnode.input.extend(node.input)
+            for tensor in newnode.input + newnode.captured:
                 if tensor == '':
-                    newnode.input.append(tensor)
                     continue
                 if tensor in self.producedby:
                     for producer in self.producedby[tensor]:
@@ -627,7 +627,6 @@ class Graph():
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(newnode.name)
-                newnode.input.append(tensor)
             for tensor in node.output:
                 if tensor == '':
                     newnode.output.append(tensor)
@@ -831,7 +830,7 @@ class Graph():
 
         newnodes = []
         # update consumer
-        for i in node.input:
+        for i in node.input + node.captured:
             if i in self.consumedby.keys():
                 if nodename in self.consumedby[i]:
                     self.consumedby[i].remove(nodename)
@@ -845,7 +844,7 @@ class Graph():
                 continue
             if any(self.consumedby.get(o) or o in self.output for o in self.nodemap[pnode].output):
                 continue
-            for i in self.nodemap[pnode].input:
+            for i in self.nodemap[pnode].input + self.nodemap[pnode].captured:
                 newnodes.extend(self.producedby.get(i, []))
             self.remove_node(pnode)
 
@@ -898,6 +897,8 @@ class Graph():
             if input in self.dynamics:
                 count += 1
                 indtensor = input
+        if any(t in self.dynamics for t in node.captured):
+            count = 0  # a nested graph uses more than the input
         if count == 1 and len(node.output) == 1:
             oldname, newname = node.output[0], indtensor
             if node.output[0] in self.output:
@@ -913,12 +914,15 @@ class Graph():
                 pro_node = self.nodemap[pro]
                 pro_node.output = [newname if o == oldname else o for o in pro_node.output]
                 self.producedby[newname] = [pro]
-            for con in self.consumedby.pop(oldname, []):
+            consumers = self.consumedby.pop(newname, [])
+            for con in dict.fromkeys(self.consumedby.pop(oldname, [])):
                 con_node = self.nodemap[con]
                 con_node.input = [newname if i == oldname else i for i in con_node.input]
-                if newname not in self.consumedby:
-                    self.consumedby[newname] = []
-                self.consumedby[newname].append(con)
+                self.__rename_captured__(con_node, oldname, newname)
+                consumers = [c for c in consumers if c != con]
+                consumers.extend([con] * (con_node.input + con_node.captured).count(newname))
+            if consumers:
+                self.consumedby[newname] = consumers
             if newname not in self.dynamics:
                 self.dynamics.append(newname)
             if oldname in self.dynamics:
@@ -926,6 +930,29 @@ class Graph():
             return
         self.remove_node(nodename)
 
+    def __rename_captured__(self, node, oldname, newname):
+        if oldname not in node.captured:
+            return
+        proto = onnx.NodeProto()
+        proto.CopyFrom(node.proto)
+        avoid = set(self.tensormap)
+        for sub in _nested_graphs(proto):
+            avoid.update(_nested_names(sub))
+
+        def fresh(name):
+            count = 1
+            while f'{name}_{count}' in avoid:
+                count += 1
+            avoid.add(f'{name}_{count}')
+            return f'{name}_{count}'
+
+        _rename_node(proto, {oldname: newname}, {newname}, fresh)
+        node.proto = proto
+        for att in proto.attribute:
+            if att.type in (onnx.AttributeProto.GRAPH, onnx.AttributeProto.GRAPHS):
+                node.set_attr(att.name, onnx.helper.get_attribute_value(att))
+        node.captured = captured_by_node(proto)
+
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         newnode_prot = onnx.helper.make_node(nodeop, _inputs, _outputs, name=nodename)
@@ -946,6 +973,7 @@ class Graph():
         newnode = create_node(newnode_prot)
         newnode.input = _inputs
         newnode.output = _outputs
+        newnode.captured = []
         for i in _inputs:
             if i in self.consumedby:
                 self.consumedby[i].append(nodename)
@@ -999,6 +1027,7 @@ class Graph():
         newnode = create_node(newnode)
         newnode.input = _inputs
         newnode.output = _outputs
+        newnode.captured = []
         for i in _inputs:
             if i in self.consumedby.keys():
                 self.consumedby[i].append(mainnode.name)
@@ -1170,7 +1199,7 @@ class Graph():
         intensors = []
         outtensors = []
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            for input in self.nodemap[name].input + self.nodemap[name].captured:
                 if len(input) == 0:
                     continue
                 if remove_initials and input in self.initials:
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4cf660a..faa58aa 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -205,6 +205,15 @@ def _captured_tensors(g):
     return captured
 
 
+def captured_by_node(n):
+    # tensors which the nested graphs (branches, loop bodies) of a node take from outside
+    captured = []
+    for att in n.attribute:
+        for g in ([att.g] if att.type == att.GRAPH else att.graphs):
+            captured.extend(t for t in _captured_tensors(g) if t not in captured)
+    return captured
+
+
 class TmpNodeProto:
     def __init__(self, name, op_type, attributes):
         self.name = name
@@ -235,10 +244,9 @@ class Node():
                 self.attr[att] = n.attribute[att]
                 self.__setattr__(att, n.attribute[att])
         else:
+            self.captured = captured_by_node(n)
             for att in n.attribute:
                 self.attr[att.name] = onnx.helper.get_attribute_value(att)
-                for g in ([att.g] if att.type == att.GRAPH else att.graphs):
-                    self.captured.extend(t for t in _captured_tensors(g) if t not in self.captured)
                 if att.name in fields or hasattr(type(self), att.name):
                     # an attribute may be called like a field of this class
                     continue
-- 
2.43.0


From a2f8434315bcaec881d9cbc269954ac7714d78ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:42 +0000
Subject: [PATCH 56/75] fix: copy the attributes of fused nodes whatever their
 type

---
 onnx_tool/graph.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9aa7c80..d1f4bbf 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -7,7 +7,7 @@ import onnx
 
 from .node import create_node, captured_by_node
 from .tensor import STATIC_TENSOR, DYNAMIC_TENSOR
-from .tensor import get_attribute_data, Tensor, volume
+from .tensor import Tensor, volume
 from .utils import VERSION, tuple2str, ModelConfig, print_table, num2str
 
 
@@ -960,9 +960,9 @@ class Graph():
         if keep_attr:
             for node in nodes:
                 for attribute in self.nodemap[node].proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        self.nodemap[node].proto.op_type + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
+                    attr = onnx.AttributeProto()
+                    attr.CopyFrom(attribute)
+                    attr.name = self.nodemap[node].proto.op_type + str(count) + '_' + attribute.name
                     newnode_prot.attribute.append(attr)
                 count += 1
         from .node import create_node
@@ -1011,9 +1011,9 @@ class Graph():
                     'postop_' + str(count), pnode.op_type)
                 newnode.attribute.append(attr)
                 for attribute in pnode.proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        'postop_' + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
+                    attr = onnx.AttributeProto()
+                    attr.CopyFrom(attribute)
+                    attr.name = 'postop_' + str(count) + '_' + attribute.name
                     newnode.attribute.append(attr)
                 count += 1
 
-- 
2.43.0


From b00e9033ce962451113998e3944bddc9e479cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:31 +0000
Subject: [PATCH 57/75] fix: read boolean values given on the command line

---
 onnx_tool/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index 7ea9261..5f71d58 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -58,6 +58,9 @@ __numpytypes__ = {'f32': numpy.float32, 'f64': numpy.float64, 'f16': numpy.float
                   'int64': numpy.int64, 'int8': numpy.int8, 'uint8': numpy.uint8, 'bool': numpy.bool_}
 
 
+__boolvalues__ = {'0': False, 'false': False, '1': True, 'true': True}
+
+
 def __str2numpytype__(strtype):
     return __numpytypes__[strtype]
 
@@ -83,7 +86,9 @@ def __args2dynamicshapes__(args: [str]):
         if len(strs) >= 2 and strs[-1] in __numpytypes__:
             dtype = __str2numpytype__(strs.pop())
         if values is not None:
-            arr = numpy.array(__str2list__(values, dtype), dtype=dtype).reshape(shape)
+            # bool('0') is true
+            convert = dtype if dtype is not numpy.bool_ else lambda s: __boolvalues__[s.lower()]
+            arr = numpy.array(__str2list__(values, convert), dtype=dtype).reshape(shape)
         else:
             arr = numpy.zeros(shape, dtype=dtype)
         dic[':'.join(strs)] = arr
-- 
2.43.0


From d7526da213e59d1bbef9da9c096c913d38c55c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:22 +0000
Subject: [PATCH 58/75] fix: select_last_index of ArgMax

---
 onnx_tool/node.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index faa58aa..480543d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1676,8 +1676,12 @@ class FlattenNode(Node):
 
 
 # copy from https://github.com/onnx/onnx/blob/main/onnx/backend/test/case/node/argmax.py
-def argmax_use_numpy(data: numpy.ndarray, axis: int = 0, keepdims: int = 1) -> (numpy.ndarray):
-    result = numpy.argmax(data, axis=axis)
+def argmax_use_numpy(data: numpy.ndarray, axis: int = 0, keepdims: int = 1, last: int = 0) -> (numpy.ndarray):
+    if last:
+        # the last of several equal maxima
+        result = data.shape[axis] - 1 - numpy.argmax(numpy.flip(data, axis), axis=axis)
+    else:
+        result = numpy.argmax(data, axis=axis)
     if (keepdims == 1):
         result = numpy.expand_dims(result, axis)
     return result.astype(numpy.int64)
@@ -1689,10 +1693,11 @@ class ArgMaxNode(Node):
         super().__init__(n)
         self.add_default_value('axis', 0)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('select_last_index', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        out = argmax_use_numpy(data, self.axis, self.keepdims)
+        out = argmax_use_numpy(data, self.axis, self.keepdims, self.select_last_index)
         outtensors[0].update_tensor(out)
 
 
-- 
2.43.0


From 17802b6af4b402622024fe3cc4c917d5e64b9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:22 +0000
Subject: [PATCH 59/75] fix: statistics outputs of BatchNormalization

---
 onnx_tool/node.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 480543d..ddc992d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1637,7 +1637,16 @@ class BatchNormalizationNode(FusedBase):
         self.add_default_value('momentum', 0.9)
         self.add_default_value('training_mode', int(0))
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        # statistics of the training mode
+        for tensor in outtensors[1:]:
+            tensor.update_shape(intensors[3].get_shape())
+            tensor.update_dtype(intensors[3].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        if self.training_mode or len(outtensors) > 1:
+            raise NotImplementedError('BatchNormalization in training mode has no value_infer')
         x = intensors[0].get_numpy()
         scale = intensors[1].get_numpy()
         b = intensors[2].get_numpy()
-- 
2.43.0


From 8ec2a5a06c7b06dc8228074e8710f1361a197b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:22 +0000
Subject: [PATCH 60/75] fix: axes and aspect ratio policy of Resize

---
 onnx_tool/node.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ddc992d..0728d5c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1,6 +1,7 @@
 import numpy
 import onnx
 import math
+from fractions import Fraction
 import warnings
 from typing import List
 from .tensor import get_attribute_data, volume, is_valid_ndarray, create_ndarray_f32, onnxdtype2npdtype, Tensor
@@ -1407,13 +1408,28 @@ class ResizeNode(Node):
                 sizes = intensors[3].get_numpy()
 
         newshape = []
-        if is_valid_ndarray(sizes):
+        axes = getattr(self, 'axes', None)
+        policy = getattr(self, 'keep_aspect_ratio_policy', b'stretch')
+        if is_valid_ndarray(sizes) and (axes is not None or policy != b'stretch'):
+            axes = _axes_neg2pos(len(xshape), range(len(xshape)) if axes is None else axes)
+            if policy != b'stretch':
+                # one scale for all the axes, and the size nearest to it
+                ratios = [Fraction(int(size), xshape[axis]) for size, axis in zip(sizes, axes)]
+                ratio = min(ratios) if policy == b'not_larger' else max(ratios)
+                sizes = [math.floor(xshape[axis] * ratio + Fraction(1, 2)) for axis in axes]
+            newshape = numpy.array(xshape)
+            newshape[axes] = sizes
+        elif is_valid_ndarray(sizes):
             if len(sizes) == len(xshape):
                 newshape = sizes
             if len(sizes) == 2:
                 newshape = numpy.array(list(xshape[:2]) + list(sizes))
         else:
             if is_valid_ndarray(scales):
+                if axes is not None:
+                    factors = numpy.ones(len(xshape), dtype=scales.dtype)
+                    factors[_axes_neg2pos(len(xshape), axes)] = scales
+                    scales = factors
                 newshape = []
                 for src, scale in zip(xshape, scales):
                     newshape.append(math.floor(src * scale))
-- 
2.43.0


From c40fc3c6492cd5f2764a617683138b7de5d8bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:22 +0000
Subject: [PATCH 61/75] fix: batch first layout of LSTM and GRU

---
 onnx_tool/node.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0728d5c..97f5330 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2068,24 +2068,28 @@ class LSTMNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('direction', None)
         self.add_default_value('hidden_size', None)
+        self.add_default_value('layout', 0)
         # TODO(Shinji) add activation types support in attributes
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        seq_len = xshape[0]
-        batch = xshape[1]
+        seq_len, batch = xshape[:2]
         num_dir = wshape[0]
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
             assert (h_len == self.hidden_size)
-        outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
+        yshape, hshape = [seq_len, num_dir, batch, h_len], [num_dir, batch, h_len]
+        if self.layout:
+            # batch first
+            yshape, hshape = [xshape[0], xshape[1], num_dir, h_len], [xshape[0], num_dir, h_len]
+        outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
         if len(outtensors) > 1:
-            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_shape(hshape)
             outtensors[1].update_dtype(intensors[0].dtype)
             if len(outtensors) > 2:
-                outtensors[2].update_shape([num_dir, batch, h_len])
+                outtensors[2].update_shape(list(hshape))
                 outtensors[2].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2712,18 +2716,25 @@ class GatherElementsNode(Node):
 
 @NODE_REGISTRY.register()
 class GRUNode(Node):
-    # TODO(Shinji) add activation types support in attributes
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('layout', 0)
+        # TODO(Shinji) add activation types support in attributes
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        seq_len = xshape[0]
-        batch = xshape[1]
+        seq_len, batch = xshape[:2]
         num_dir = wshape[0]
         h_len = wshape[1] // 3
-        outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
+        yshape, hshape = [seq_len, num_dir, batch, h_len], [num_dir, batch, h_len]
+        if self.layout:
+            # batch first
+            yshape, hshape = [xshape[0], xshape[1], num_dir, h_len], [xshape[0], num_dir, h_len]
+        outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
         if len(outtensors) > 1:
-            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_shape(hshape)
             outtensors[1].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 0be76a0e461b7c4d14490bfd64ee25a481fb27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:22 +0000
Subject: [PATCH 62/75] fix: output type given to QuantizeLinear and
 DequantizeLinear

---
 onnx_tool/node.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 97f5330..1d90b4f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2488,7 +2488,8 @@ class DequantizeLinearNode(PWNode):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[1].dtype)
+        output_dtype = getattr(self, 'output_dtype', 0)
+        outtensors[0].update_dtype(onnxdtype2npdtype(output_dtype) if output_dtype else intensors[1].dtype)
 
 
 @NODE_REGISTRY.register()
@@ -2528,7 +2529,11 @@ class QuantizeLinearNode(PWNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         has_zero_point = len(intensors) > 2 and intensors[2].name != ''
-        outtensors[0].update_dtype(intensors[2].dtype if has_zero_point else numpy.uint8)
+        if has_zero_point:
+            outtensors[0].update_dtype(intensors[2].dtype)
+        else:
+            output_dtype = getattr(self, 'output_dtype', 0)
+            outtensors[0].update_dtype(onnxdtype2npdtype(output_dtype) if output_dtype else numpy.uint8)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 52a0cbabd85babba16cb4f6c6db1b8a9157f8613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:22 +0000
Subject: [PATCH 63/75] fix: overflow of Softmax and Softplus values

---
 onnx_tool/node.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1d90b4f..ad62e10 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -483,7 +483,9 @@ class SoftmaxNode(ExpNode):
         self.add_default_value('axis', -1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xexp = numpy.exp(intensors[0].get_numpy())
+        x = intensors[0].get_numpy()
+        # large inputs would overflow
+        xexp = numpy.exp(x - numpy.max(x, axis=self.axis, keepdims=True, initial=-numpy.inf))
         result = xexp / numpy.sum(xexp, axis=self.axis, keepdims=True)
         outtensors[0].update_tensor(result)
 
@@ -497,9 +499,7 @@ class SoftplusNode(ExpNode):
         self.ratio = 1
 
     def value_infer(self, intensors: list[Tensor], outtensors: list[Tensor]):
-        # Can overflow to inf if intensor is too large,
-        # but we don't need precise inference anyway so maybe its good enough.
-        result = numpy.log1p(numpy.exp(intensors[0].get_numpy()))
+        result = numpy.logaddexp(intensors[0].get_numpy(), 0).astype(intensors[0].dtype)
         outtensors[0].update_tensor(result)
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 6c46ea3064924178e35b9d862e0a3182f67d14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:22 +0000
Subject: [PATCH 64/75] fix: keep constant nodes which cannot be evaluated when
 folding

---
 onnx_tool/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d1f4bbf..cdaac3d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -415,7 +415,12 @@ class Graph():
                         otensors = []
                         for output in this_node.output:
                             otensors.append(self.tensormap[output])
-                        this_node.value_infer(itensors, otensors)
+                        try:
+                            this_node.value_infer(itensors, otensors)
+                        except NotImplementedError:
+                            # its value cannot be computed here: the node stays
+                            this_node.constant = False
+                            continue
                         if len(otensors) > 0:
                             for i, output in enumerate(this_node.output):
                                 self.tensormap[output].type = STATIC_TENSOR
-- 
2.43.0


From 9665933b42f267200e69ff612837ccf3612368f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:15 +0000
Subject: [PATCH 65/75] fix: Resize with an empty name for sizes

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ad62e10..6ce5013 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1404,7 +1404,7 @@ class ResizeNode(Node):
         elif len(intensors) >= 3:
             roi = intensors[1].get_numpy()
             scales = intensors[2].get_numpy()
-            if len(intensors) >= 4:
+            if len(intensors) >= 4 and intensors[3].name != '':
                 sizes = intensors[3].get_numpy()
 
         newshape = []
-- 
2.43.0


From 8a0340abaa387c035bc20ff601aef56f856561db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:15 +0000
Subject: [PATCH 66/75] fix: point-wise operators with operands of no elements

---
 onnx_tool/node.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6ce5013..1cb64dd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -323,10 +323,8 @@ class PWNode(Node):
         self.ratio = max(1, len(self.input) - 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        inshapes = []
-        for tensor in intensors:
-            inshapes.append(tensor.get_shape())
-        outtensors[0].update_shape(_max_shape(inshapes))
+        # the other operands broadcast to the first one
+        outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From edbff86b2858f8fdefaa201661f6a4e2f1fb1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:41 +0000
Subject: [PATCH 67/75] fix: convolutions with an empty name for the bias do
 not add one

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1cb64dd..a061f11 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2202,7 +2202,7 @@ class ConvNode(Node):
                 reduce_shape = kernel_shape[1:]
                 reduce_vol = volume(reduce_shape)
                 macs += outvol * reduce_vol * MUL_MACS
-                if len(intensors) > 2:
+                if len(intensors) > 2 and intensors[2].name != '':
                     macs += (outvol * ADD_MACS)
         return macs
 
@@ -2655,7 +2655,7 @@ class ConvTransposeNode(Node):
                 reduce_shape = kernel_shape[1:]
                 reduce_vol = volume(reduce_shape)
                 macs += outvol * reduce_vol * MUL_MACS
-                if len(intensors) > 2:
+                if len(intensors) > 2 and intensors[2].name != '':
                     macs += (outvol * ADD_MACS)
         return macs
 
-- 
2.43.0


From 6a8b7556c7ba2c9e795ca2e3f5c1aa458f79b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:50 +0000
Subject: [PATCH 68/75] fix: negative indices of GatherElements in inference

---
 inference/kernels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inference/kernels.py b/inference/kernels.py
index 9fef30f..38ee7fc 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -1085,6 +1085,8 @@ class GatherElementsKernel(Kernel):
         axis = attrs.get('axis', 0)
         data = inputs[0]
         indices = inputs[1].long()
+        # 负索引从末尾数起
+        indices = torch.where(indices < 0, indices + data.shape[axis], indices)
         outputs[0].copy_(torch.gather(data, axis, indices))
 
 
-- 
2.43.0


From 10904d84270e6281f5b73197416090a656865bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:35 +0000
Subject: [PATCH 69/75] fix: axis of LayerNormalization in inference

---
 inference/kernels.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 38ee7fc..267552c 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -854,6 +854,10 @@ class LayerNormKernel(Kernel):
 
         # 检测 per-head norm：weight 维度小于 x 最后一维
         head_dim = weight.shape[-1]
+        # ONNX: 从 axis 到最后一维一起做 norm
+        axis = attrs.get('axis', -1)
+        axis = axis if axis >= 0 else axis + x.dim()
+        dims = tuple(range(axis - x.dim(), 0))
         if head_dim < x.shape[-1]:
             # Per-head norm: reshape [B, S, N*head_dim] -> [B, S, N, head_dim]
             N = x.shape[-1] // head_dim
@@ -861,13 +865,13 @@ class LayerNormKernel(Kernel):
 
         if norm_type == 'rms':
             # RMS Norm: y = x * rsqrt(mean(x^2) + eps) * weight
-            variance = x.pow(2).mean(-1, keepdim=True)
+            variance = x.pow(2).mean(dim=dims, keepdim=True)
             y = x * torch.rsqrt(variance + eps)
             y = y * weight
         else:
             # Layer Norm: y = (x - mean) / sqrt(var + eps) * weight + bias
-            mean = x.mean(dim=-1, keepdim=True)
-            var = x.var(dim=-1, keepdim=True, unbiased=False)
+            mean = x.mean(dim=dims, keepdim=True)
+            var = x.var(dim=dims, keepdim=True, unbiased=False)
             y = (x - mean) / torch.sqrt(var + eps)
             y = y * weight
             if bias is not None:
-- 
2.43.0


From 7cc2f2a3aa02c9fd97653493f9fd153fd3ad1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:47 +0000
Subject: [PATCH 70/75] fix: KV cache of four-dimensional attention operands

---
 inference/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 267552c..53a82cc 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -917,7 +917,7 @@ class SDPAKernel(Kernel):
             kv_hidden_size = k.shape[-1]  # 保存原始 K 的最后一维
         else:
             head_dim = q.shape[-1]
-            kv_hidden_size = k.shape[-1] * k.shape[-2] if k.dim() == 4 else k.shape[-1]
+            kv_hidden_size = k.shape[1] * head_dim
 
         # 统一转为 4D [B, N, S, head_dim]
         if q.dim() == 3:
@@ -955,8 +955,8 @@ class SDPAKernel(Kernel):
             v = torch.cat([cache_v, v], dim=2)
 
             # 把当前 K/V 写回 kv_cache（只写 kv_hidden_size 个元素）
-            curr_k_flat = inputs[1].reshape(B, S, -1)  # [B, S, kv_hidden_size]
-            curr_v_flat = inputs[2].reshape(B, S, -1)  # [B, S, kv_hidden_size]
+            curr_k_flat = k[:, :, n_past:].transpose(1, 2).reshape(B, S, -1)  # [B, S, kv_hidden_size]
+            curr_v_flat = v[:, :, n_past:].transpose(1, 2).reshape(B, S, -1)  # [B, S, kv_hidden_size]
             kv_cache[:, layer_i * 2, n_past:n_past + S, :kv_hidden_size] = curr_k_flat
             kv_cache[:, layer_i * 2 + 1, n_past:n_past + S, :kv_hidden_size] = curr_v_flat
 
-- 
2.43.0


From 5aa329f2320abfb9e4ab8f0088e35aaa228a2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:48 +0000
Subject: [PATCH 71/75] fix: approximate attribute of Gelu in inference

---
 inference/kernels.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 53a82cc..0fba3db 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -791,13 +791,18 @@ class MadKernel(Kernel):
 
 @KernelRegistry.register("Gelu")
 class GeluKernel(Kernel):
-    """Fused GELU activation: y = 0.5 * x * (1 + tanh(sqrt(2/pi) * (x + 0.044715 * x^3)))"""
+    """
+    GELU activation: y = 0.5 * x * (1 + erf(x / sqrt(2))), or with approximate='tanh'
+    y = 0.5 * x * (1 + tanh(sqrt(2/pi) * (x + 0.044715 * x^3)))
+    """
     op_type = "Gelu"
 
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        outputs[0].copy_(F.gelu(x))
+        approximate = attrs.get('approximate', 'none')
+        approximate = approximate.decode() if isinstance(approximate, bytes) else approximate
+        outputs[0].copy_(F.gelu(x, approximate=approximate))
 
 
 @KernelRegistry.register("RangeGather")
-- 
2.43.0


From fc3ecd15e5ad9b889ddb18e46a20d54d5a2d0edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:26 +0000
Subject: [PATCH 72/75] fix: GatherND values of operands of no elements

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a061f11..8d56aea 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2369,7 +2369,7 @@ def gather_nd_impl(
     output_data_buffer = []
 
     # Flatten 'indices' to 2D array
-    reshaped_indices = indices.reshape(batch_dims_size, -1, indices.shape[-1])
+    reshaped_indices = indices.reshape(batch_dims_size, math.prod(indices.shape[batch_dims:-1]), indices.shape[-1])
 
     # Flatten 'data' to array of shape (batch_dim_size, data.shape[batch_dimes:])
     reshaped_data = data.reshape((batch_dims_size,) + data.shape[batch_dims:])
-- 
2.43.0


From eecca1794211359d53ee263cb9768e6c272230de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:00 +0000
Subject: [PATCH 73/75] fix: coordinate and nearest modes, axes and scales of
 Resize in inference

---
 inference/kernels.py | 66 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 0fba3db..71978e4 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -725,6 +725,25 @@ class PadKernel(Kernel):
         outputs[0].copy_(F.pad(x, tuple(pad_tuple), mode=torch_mode))
 
 
+def _resize_index(attrs: Dict, size: int, osize: int, scale: float) -> torch.Tensor:
+    """ONNX Resize: 一个维度上每个输出下标对应的输入坐标"""
+    i = torch.arange(osize, dtype=torch.float64)
+    mode = _attr_str(attrs, 'coordinate_transformation_mode', 'half_pixel')
+    if mode == 'align_corners':
+        return i * (size - 1) / (osize - 1) if osize > 1 else i * 0.0
+    if mode == 'asymmetric':
+        return i / scale
+    if mode == 'pytorch_half_pixel' and osize == 1:
+        return i * 0.0
+    offset = size / 2 * (1 - osize / (scale * size)) if mode == 'half_pixel_symmetric' else 0.0
+    return (i + 0.5) / scale - 0.5 + offset
+
+
+def _attr_str(attrs: Dict, name: str, default: str) -> str:
+    value = attrs.get(name, default)
+    return value.decode() if isinstance(value, bytes) else value
+
+
 @KernelRegistry.register("Resize")
 class ResizeKernel(Kernel):
     op_type = "Resize"
@@ -732,22 +751,41 @@ class ResizeKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        # inputs[1] = roi (optional), inputs[2] = scales (optional), inputs[3] = sizes
+        oshape = outputs[0].shape
+        mode = _attr_str(attrs, 'mode', 'nearest')
+        if mode == 'cubic':
+            align_corners = _attr_str(attrs, 'coordinate_transformation_mode', 'half_pixel') == 'align_corners'
+            outputs[0].copy_(F.interpolate(x, size=tuple(oshape[2:]), mode='bicubic', align_corners=align_corners))
+            return
+        # inputs[1] = roi (optional), inputs[2] = scales (optional), inputs[3] = sizes，
+        # 结果 shape 已由 shape engine 推导
+        axes = [a % x.dim() for a in attrs.get('axes', None) or range(x.dim())]
+        scales = [float(oshape[a]) / float(x.shape[a]) for a in axes]
         if len(inputs) > 3 and inputs[3] is not None:
-            sizes = inputs[3].cpu().tolist()
-            # sizes 是 [N, C, H, W] 格式
-            mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
-            align_corners = attrs.get('coordinate_transformation_mode', 'half_pixel') == 'align_corners'
-            torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
-            result = F.interpolate(x, size=sizes[2:], mode=torch_mode, align_corners=align_corners if torch_mode != 'nearest' else None)
-            outputs[0].copy_(result)
+            policy = _attr_str(attrs, 'keep_aspect_ratio_policy', 'stretch')
+            if policy != 'stretch':
+                pick = min if policy == 'not_larger' else max
+                scales = [pick(float(n) / float(x.shape[a]) for n, a in zip(inputs[3].cpu().tolist(), axes))] * len(axes)
         elif len(inputs) > 2 and inputs[2] is not None:
-            scales = inputs[2].cpu().tolist()
-            sizes = [int(x.shape[i] * scales[i]) for i in range(len(scales))]
-            mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
-            torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
-            result = F.interpolate(x, size=sizes[2:], mode=torch_mode)
-            outputs[0].copy_(result)
+            scales = [float(f) for f in inputs[2].cpu().tolist()]
+        # 逐维插值
+        for a, scale in zip(axes, scales):
+            size = int(x.shape[a])
+            if scale == 1.0 and int(oshape[a]) == size:
+                continue
+            at = _resize_index(attrs, size, int(oshape[a]), scale)
+            if mode == 'linear':
+                low = torch.floor(at)
+                weight = (at - low).to(device=x.device, dtype=x.dtype).reshape([-1] + [1] * (x.dim() - 1 - a))
+                first = torch.index_select(x, a, torch.clamp(low, 0, size - 1).long().to(x.device))
+                second = torch.index_select(x, a, torch.clamp(low + 1, 0, size - 1).long().to(x.device))
+                x = first * (1 - weight) + second * weight
+            else:
+                nearest = _attr_str(attrs, 'nearest_mode', 'round_prefer_floor')
+                at = {'floor': lambda: torch.floor(at), 'ceil': lambda: torch.ceil(at),
+                      'round_prefer_ceil': lambda: torch.floor(at + 0.5)}.get(nearest, lambda: torch.ceil(at - 0.5))()
+                x = torch.index_select(x, a, torch.clamp(at, 0, size - 1).long().to(x.device))
+        outputs[0].copy_(x)
 
 
 # ===========================================================================
-- 
2.43.0


From 98a10ca99cfb3785672faa14103251ea6e56612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:25 +0000
Subject: [PATCH 74/75] fix: dilations of AveragePool in inference

---
 inference/kernels.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 71978e4..cb70ac2 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -361,18 +361,26 @@ class AveragePoolKernel(Kernel):
         x = inputs[0]
         kernel_shape = attrs.get('kernel_shape', (1, 1))
         strides = attrs.get('strides', (1, 1))
-        dilations = (1, 1)
+        dilations = attrs.get('dilations', (1, 1))
+
+        def average(t):
+            if all(d == 1 for d in dilations):
+                return F.avg_pool2d(t, kernel_shape, stride=strides)
+            # F.avg_pool2d 不支持 dilation，用各通道独立的均值卷积
+            weight = torch.full((int(t.shape[1]), 1, *kernel_shape), 1.0 / (kernel_shape[0] * kernel_shape[1]),
+                                dtype=t.dtype, device=t.device)
+            return F.conv2d(t, weight, stride=strides, dilation=dilations, groups=int(t.shape[1]))
 
         pads, extra = _pads_2d(attrs, x, outputs[0], kernel_shape, strides, dilations)
         if not any(pads) and not any(extra):
-            outputs[0].copy_(F.avg_pool2d(x, kernel_shape, stride=strides))
+            outputs[0].copy_(average(x))
             return
         # 窗口内参与平均的元素所占比例：填充的元素由 count_include_pad 决定，
         # ceil_mode 超出的部分从不参与
         inside = torch.ones_like(x)
         inside = F.pad(inside, pads, value=1.0 if attrs.get('count_include_pad', 0) else 0.0)
-        inside = F.avg_pool2d(F.pad(inside, extra), kernel_shape, stride=strides)
-        result = F.avg_pool2d(F.pad(F.pad(x, pads), extra), kernel_shape, stride=strides)
+        inside = average(F.pad(inside, extra))
+        result = average(F.pad(F.pad(x, pads), extra))
         outputs[0].copy_(result / inside)
 
 
-- 
2.43.0


From e7e56da7297cca2c0bfee9569e59b96bd9712ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:25 +0000
Subject: [PATCH 75/75] fix: GlobalAveragePool kernel averages over the
 channels of three-dimensional inputs

---
 inference/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index cb70ac2..574608f 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -411,8 +411,8 @@ class GlobalAveragePoolKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        # [N, C, H, W] -> [N, C, 1, 1]
-        outputs[0].copy_(F.adaptive_avg_pool2d(x, (1, 1)))
+        # [N, C, ...] -> [N, C, 1, ...]
+        outputs[0].copy_(x.mean(dim=tuple(range(2, x.dim())), keepdim=True))
 
 
 @KernelRegistry.register("Flatten")
-- 
2.43.0

