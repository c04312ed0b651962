#!/usr/bin/env python3
"""Single source of properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, tests, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=tests,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=observe, hook_needed=None)))
T13 = "The 13 existing tests only exercise broadcasting of a few shape pairs and the Pow/Where nodes; "

p("C01", "Node reordering is a dependency-respecting permutation",
  "Reordering the nodes of any acyclic model keeps exactly the same nodes (each with the same inputs, outputs and operator), the same graph inputs and outputs and the same producer/consumer relations, and afterwards every node comes after all nodes that produce its inputs. Shape inference, profiling and saving therefore work on a model whose nodes were stored in any order.",
  ["inputs", "programs"], "every acyclic graph and every stored order of its nodes, including repeated inputs, multi-output nodes, omitted optional inputs, unnamed and equally named nodes",
  T13 + "none of them reorders a graph.",
  ["onnx_tool/graph.py", "onnx_tool/__init__.py"], [("topological sort / reorder", "Graph.topsort_nodes, Graph.graph_reorder_nodes, model_reorder_nodes")],
  ["order and content of the node map after reordering", "file written by model_reorder_nodes"],
  [("nodemap", "ordered nodes", "Graph"), ("producedby/consumedby", "tensor relations", "Graph")])

p("C02", "Loading and saving a model preserves it",
  "Loading a model and saving it again yields a model with the same nodes (name, operator, domain, inputs, outputs, attribute values), the same graph outputs, the same used graph inputs with element type and shape, the same opset imports and every used initializer with the same element type, shape and values, whatever encoding the initializer had. With shape_only the weights are left out but their shapes are kept; with no_shape no intermediate shapes are stored; after shape inference the stored shapes are the inferred ones.",
  ["inputs", "programs", "configurations"], "every model built from the supported element types and attribute kinds, every initializer encoding (raw or typed fields), every combination of the saving options, with and without previous shape inference",
  T13 + "nothing saves or reloads a model.",
  ["onnx_tool/graph.py", "onnx_tool/tensor.py", "onnx_tool/node.py", "onnx_tool/model.py"],
  [("proto to node/tensor and back", "Graph.__init_graph_from_onnxproto__, Graph.make_graph_onnx, Node.make_nodeproto, Tensor.make_tensor_proto, tensorproto2ndarray")],
  ["the reloaded file compared with the original"])

p("C03", "Constant folding preserves what the model computes",
  "Folding constants removes only nodes whose result does not depend on the model's inputs, replaces them by initializers holding exactly the values (element type, shape and data) the removed nodes would have computed, and leaves the graph inputs, graph outputs and all remaining nodes as they were. Nodes depending on an input, and dequantization of constant weights, are never folded.",
  ["inputs", "programs"], "every model mixing constant and input-dependent parts over the supported operators, chains and diamonds of constants, any node order, any operand values",
  T13 + "none folds constants; only Pow and Where values are looked at, for one shape pair each.",
  ["onnx_tool/graph.py", "onnx_tool/node.py", "onnx_tool/__init__.py"],
  [("constant propagation", "Graph.__constant_search__, Graph.__update_nodes_tensors__, Node.value_infer of every operator")],
  ["nodes, initializers, inputs and outputs of the folded model"])

p("C04", "Inferred shapes and types follow the ONNX operator definition",
  "For every supported operator, attribute setting and combination of concrete input shapes that the operator admits, shape inference yields for each output exactly the shape (and, where the operator defines it, the element type) that executing the ONNX operator would produce.",
  ["inputs", "configurations"], "all ranks, sizes (including 1 and broadcasting), strides, pads, dilations, groups, axes (including negative), keepdims, auto_pad, omitted optional inputs",
  T13 + "a handful of broadcast pairs out of an unbounded operand space, and two operators out of more than a hundred.",
  ["onnx_tool/node.py"], [("per-operator shape rules", "Node subclasses' shape_infer, broadcast helpers, auto_pad / pooling size helpers")],
  ["tensor shapes after shape_infer"])

p("C05", "Shape-computing subgraphs are evaluated exactly",
  "When a model computes a shape at run time (Shape, Gather, Concat, Slice, arithmetic, Cast, ... feeding Reshape, Expand, Slice, Resize, ConstantOfShape, Tile, Range, Pad, TopK, Split and the like), shape inference on concrete inputs determines every tensor's shape as executing the whole model would, for every input shape. Values of integer shape tensors computed on the way equal the executed values.",
  ["inputs", "programs"], "whole models combining shape arithmetic with operators consuming it, under many input shapes",
  T13 + "no test has a shape subgraph.",
  ["onnx_tool/graph.py", "onnx_tool/node.py"], [("identification of shape tensors and value propagation", "Graph.__find_shape_tensors__, Graph.shape_infer, Node.value_infer")],
  ["tensor shapes after shape_infer", "results of value_infer"])

p("C06", "Results do not depend on what was inferred before",
  "Shape inference, value inference and profiling of a graph for given inputs give the same result on a freshly loaded graph and on a graph object already used for any sequence of other inputs and calls. In particular going back to an earlier input shape gives back the earlier shapes, MACs, parameters and memory.",
  ["histories"], "all sequences of shape_infer / profile / value_infer / shape_regress / reorder calls with varying inputs on one graph object",
  T13 + "no test calls anything twice on the same graph.",
  ["onnx_tool/graph.py", "onnx_tool/node.py", "onnx_tool/tensor.py"], [("re-evaluation of all nodes per call", "Graph.shape_infer, Graph.profile, Tensor.update_tensor/update_shape")],
  ["shapes and profile numbers after each call"], [("tensormap", "shape, value and type of each tensor", "Graph"), ("node.macs/params/memory", "profile results", "Node")])

p("C07", "Unset or incompatible shapes are refused, never guessed",
  "Shape inference refuses a model whose graph inputs still have symbolic, unknown or negative dimensions, naming the tensor, and reports an error naming the node when operands cannot be combined; profiling is refused while no valid shape inference has happened. After a refusal the graph is usable: supplying valid inputs gives the same result as on a fresh graph.",
  ["inputs", "histories", "fault_sequences"], "every placement of unset dimensions, every pair of incompatible operands, and every recovery sequence after a refusal",
  T13 + "only one incompatible pair of the helper is tried and no recovery.",
  ["onnx_tool/graph.py", "onnx_tool/node.py"], [("input validation", "Graph.check_inputs, Graph.shape_infer, Graph.profile"), ("broadcast check", "broadcast helper")],
  ["exception and message, valid_shape / valid_profile, results after recovery"])

p("C08", "Each node's MACs follow its operator's documented cost",
  "The MACs attributed to a node are the number of multiply-accumulates its operator performs on the inferred shapes by the tool's published rules: products of kernel volume, channels per group and output volume for convolutions, m*k*n for matrix products, a fixed per-element weight times the element count for element-wise, reduction, normalisation and pooling operators. They scale exactly with batch and spatial sizes and are zero for data-movement operators.",
  ["inputs", "configurations"], "all shapes, groups, strides, kernel sizes, batch dimensions and bias presence",
  T13 + "no test profiles anything.",
  ["onnx_tool/node.py"], [("per-operator cost", "Node subclasses' profile")], ["node macs after profile()"])

p("C09", "Model totals account for every counted node exactly once",
  "Total MACs, parameters and memory are exactly the sums of the per-node figures over the nodes whose operator is not excluded; a node's parameters are the elements of its weight inputs, the de-duplicated parameter count counts each used weight once however many nodes share it, and node memory is element counts times element sizes. The printed and CSV tables state the same numbers, one row per counted node, and percentages consistent with the totals, and the operator exclusions of one call do not affect any other call.",
  ["programs", "configurations", "histories"], "all graphs, weight sharing patterns, element types, sets of excluded operators and orders of calls",
  T13 + "the profiling test needs models that are not in the repository.",
  ["onnx_tool/graph.py", "onnx_tool/__init__.py", "onnx_tool/utils.py", "onnx_tool/node.py"],
  [("summation and table", "Graph.profile, Graph.print_node_map, model_profile, print_table")], ["macs, params, dedup_params, memory, CSV/text table"])

p("C10", "Reported sparsity is the sparsity of the weight",
  "For a weight tensor large enough to be analysed the reported ratio is exactly the fraction of zero elements (zero point 128 for uint8), and the reported block size divides the tensor's dimensions and is consistent with the reported block ratio: that fraction of blocks of that size is entirely zero and it is within the tolerance of the element ratio. No block twice as long, along either axis, would also be within the tolerance. Dense or small weights are reported as 1x1 with no sparse pattern, and a node reports the sparsest of its inputs.",
  ["inputs"], "all 2-D and 4-D weights, block shapes, zero patterns and element types",
  T13 + "sparsity is never computed.",
  ["onnx_tool/tensor.py", "onnx_tool/graph.py"], [("sparsity search", "Tensor.sparsity_search, search_sparse_blocksize, narray_calc_sparsity")], ["tensor.sparsity, node.sparsity, Sparse columns of the profile"])

p("C11", "Memory compression never lets two live tensors share bytes",
  "In the plan computed by activation memory compression every activation (and graph input) gets a block at least as large as its data, inside the reported pool, and the blocks of any two tensors that are live at the same execution step are disjoint; graph outputs stay live to the end. The pool size is exactly the highest block end and is never larger than giving every tensor its own padded block.",
  ["programs", "inputs", "configurations"], "all graph topologies, tensor sizes, element types and paddings, including outputs that are also consumed, unused outputs and repeated inputs",
  T13 + "the allocator is not tested, and its own overlap check only prints a warning.",
  ["onnx_tool/graph.py"], [("liveness and best-fit allocation", "Graph.compress_memory")], ["returned (map, size)"],
  [("mem_block/mem_tags", "allocator state", "Graph.compress_memory")])

p("C12", "The shape engine agrees with shape inference over the whole range",
  "After regressing a model over the declared ranges of its input variables, setting variables to any values inside the ranges and updating gives, for every tensor, the shape that direct shape inference on those inputs gives, whenever each dimension depends on one variable as a (floor or ceil) linear function. The engine reports exactly the declared shapes for inputs and leaves fixed dimensions fixed.",
  ["inputs", "programs"], "all values in the ranges for all variables independently, and all admissible models (strided convolution and pooling, flattening, concatenation, upscaling)",
  T13 + "regression is not tested; its demo needs absent model files.",
  ["onnx_tool/graph.py", "onnx_tool/__init__.py"], [("regression of expressions", "Graph.shape_regress, ValueExpr, ShapeEngine")], ["ShapeEngine.get_tensorshape for every tensor and variable value"])

p("C13", "The compute graph keeps all computation and drops only shape work",
  "Extracting the compute graph removes only nodes that merely compute shapes; every graph output stays produced by the same computation from the same data inputs, every kept node's data inputs are still produced, given or constant, and the kept nodes keep their order. Shapes inferred before remain available for every kept tensor, and every kept activation is listed as dynamic so that memory planning covers it.",
  ["programs"], "all graphs with shape subgraphs feeding and fed by compute nodes, shared by several consumers or reaching outputs",
  T13 + "nothing extracts a compute graph.",
  ["onnx_tool/graph.py", "onnx_tool/__init__.py"], [("compute graph extraction", "Graph.get_compute_graph, Graph.__find_shape_tensors__, Graph.remove_node")], ["nodes, inputs, outputs, dynamics of the compute graph"])

p("C14", "Splitting a model partitions it with matching interfaces",
  "Splitting at given tensors assigns every node to exactly one of the before, inside and after parts, where the after part is what depends on the out tensors and the inside part what depends on the in tensors and is not after; extracting nodes by name yields exactly those nodes. Each extracted model lists as inputs exactly the non-weight tensors it does not produce, as outputs exactly the tensors needed outside it (or graph outputs), and carries the weights it uses, so the parts connected by tensor names compute what the whole did.",
  ["programs", "inputs"], "all graphs and all choices of cut tensors or node sets",
  T13 + "splitting is never exercised.",
  ["onnx_tool/graph.py", "onnx_tool/__init__.py"], [("level search and extraction", "Graph.__get_subnodes_byio__, Graph.get_subgraph, Graph.get_onnxgraph_by_nodenames, Graph.get_iotensors, model_subgraph")], ["nodes and interfaces of the sub-models"])

p("C15", "Fusing nodes preserves the dataflow around them",
  "Replacing a set of nodes by one fused node (by name, by boundary tensors, or as post-operations of the first node) removes exactly those nodes, and the new node consumes exactly the tensors they took from outside and produces exactly the tensors used outside or as graph outputs. All other nodes, the graph inputs and the graph outputs stay as they were, tensor relations stay consistent for later operations, and with attributes kept the fused nodes' attribute values can be read back.",
  ["programs", "histories"], "all graphs, all convex node sets and sequences of fusions, removals and reorderings",
  T13 + "fusion is never exercised.",
  ["onnx_tool/graph.py", "onnx_tool/__init__.py"], [("fusion", "Graph.fuse_subgraph_node_names, Graph.fuse_postop_node_names, Graph.fuse_subgraph_iotensors, model_opfusion, Graph.get_iotensors")], ["node map, relations, saved model after fusion"])

p("C16", "Pattern search returns real, complete matches",
  "Every match returned by a pattern search binds each pattern node to a distinct graph node with an admissible operator and attributes such that every connection demanded by the pattern exists between the bound nodes; matches of in-place patterns never swallow a value that something else uses. Every node at which an occurrence of the pattern begins is reported, once.",
  ["programs", "configurations"], "all graphs and all serial or port-connected patterns over them",
  T13 + "pattern search is never exercised.",
  ["onnx_tool/fusion.py"], [("pattern matching", "FusionPattern.search_pattern, search_node, NodeCondition, AttrExpr, create_descs_from_nodenames, createSerialPattern")], ["list of matched node names"])

p("C17", "Convolution/batch-norm fusion leaves the computed function unchanged",
  "Fusing batch normalisation into the preceding convolution gives weights and bias with which the convolution alone computes what convolution followed by normalisation computed, per output channel, with or without a previous bias. The normalisation node disappears, its output is produced by the convolution, and convolutions whose result or weights something else uses, or that are not followed by a normalisation, are left alone.",
  ["inputs", "programs"], "all kernel shapes, groups, biases, statistics and graph contexts",
  T13 + "the fusion is never run.",
  ["onnx_tool/fusion.py"], [("fusion pass", "ConvBNFusion")], ["weights, bias and nodes after fusion"])

p("C18", "Removing or skipping nodes never disturbs what remains",
  "Skipping a pass-through node connects its consumers (and the graph output it fed) to its input and changes nothing else; removing dangling nodes removes exactly the nodes from which no graph output can be reached; removing one node removes only it (recursively: also producers nothing else needs). Afterwards producer/consumer relations describe exactly the remaining nodes and every remaining graph output is still produced by the same computation.",
  ["programs", "histories"], "all graphs, all nodes and all sequences of skip, remove, remove-dangling, reorder operations",
  T13 + "none of these operations is tested.",
  ["onnx_tool/graph.py", "onnx_tool/fusion.py"], [("graph surgery", "Graph.skip_node, Graph.remove_node, Graph.remove_dangling_nodes, Graph.remove_subtree, removeShapeOps")], ["node map and relations after each call"])

p("C19", "Fixing If branches and TopK sizes selects exactly that behaviour",
  "Loading with a fixed If branch yields the model in which each If is replaced by the nodes and constants of the chosen branch, wired to the If's outputs in order, with the condition computation dropped only where nothing else needs it, Ifs nested in the chosen branch included (loop bodies stay as they are). Loading with a fixed TopK size makes every TopK of the loaded graph use that constant and drops only what computed the old size.",
  ["programs", "configurations"], "all models with If nodes (several outputs, nested, sharing conditions, feeding graph outputs) and TopK nodes, and either branch",
  T13 + "neither option is tested.",
  ["onnx_tool/graph.py", "onnx_tool/utils.py"], [("branch resolution", "Graph.__remove_if__, Graph.__inline_branch__, Graph.__set_fixed_topk")], ["nodes and tensors of the loaded graph"])

p("C20", "Serialized graphs, shape engines and memory plans decode to the original",
  "The binary files written for a compute graph, a shape engine and a memory plan follow one fixed little-endian, length-prefixed format: decoding them yields the same nodes, wiring, attribute values, weights (type, shape, bytes), variables, descriptors, expressions, offsets and sizes, with nothing left over. Anything the format cannot represent is refused rather than written as a corrupt file.",
  ["inputs", "programs"], "all graphs, attribute kinds (empty lists, strings, floats, integers of any size, tensors), weight types and plans",
  T13 + "serialization is never exercised.",
  ["onnx_tool/serialization.py"], [("writers", "serialize_graph, serialize_shape_engine, serialize_memory_compression")], ["bytes of the written file"])

p("C21", "Weight quantization stays within half a step and its code range",
  "For every weight, block setting, type and bit width the quantized codes lie in the range of that width and scheme, de-quantizing code by code with the stored scale and zero point is within half a scale step of the original, zero maps to exactly zero, and each scale is that of its own tensor, row or block. Four-bit codes are packed two per byte, low nibble first, and unpack to the same codes.",
  ["inputs", "configurations"], "all weight values (zero rows, constants, extreme magnitudes), symmetric and asymmetric, 4 and 8 bits, per tensor, per row and per block including ragged last blocks",
  T13 + "quantization is never run.",
  ["onnx_tool/quantization.py"], [("quantizer", "quantize, find_min_max, get_symmetric_parameter, get_asymmetric_u8_parameter, pack_4bits")], ["codes, scales, zero points, packed bytes"])

p("C22", "Quantizing a weight rewires every user of it and nothing else",
  "After quantizing a weight in a graph, each node that used it takes the code tensor, its scale and (asymmetric only) its zero point at the place of the weight with its other inputs unchanged, carries the quantization settings, and the original weight is gone; all other weights and nodes are untouched. Activations, non-float or non-matrix weights and already quantized tensors are left alone, and the graph can still be saved, related and quantized further.",
  ["programs", "histories", "configurations"], "all graphs, sharing patterns and sequences of quantization calls",
  T13 + "graph quantization is never run.",
  ["onnx_tool/quantization.py", "onnx_tool/graph.py"], [("graph rewrite", "graph_quantize")], ["initializers, node inputs, relations after each call"])

p("C23", "Built LLM graphs are well formed and match the architecture",
  "For every supported architecture description and every batch/sequence/context size, the built graph is connected and ordered: each tensor a node uses is an input, a weight or produced earlier, names are unique, and the parameter count, MACs and KV-cache sizes, also after the cache has grown, equal the closed-form values of that architecture, and the exported file holds the same nodes. Building one model has no influence on models built before or after.",
  ["configurations", "histories"], "all architecture settings (layers, heads, KV heads, gating, biases, norms, experts, latent attention) and sequences of builds",
  T13 + "the LLM builder is not tested.",
  ["onnx_tool/llm.py", "onnx_tool/model_configs.py"], [("graph builder", "Builder and its add_* methods")], ["graph, parameter counts, MACs, KV sizes"])

p("C24", "LLM latency estimates are the stated roofline of the profile",
  "On a described device the latency of a node is the larger of its compute time (its operations at the rate of its class) and its memory time (weights, activations and cache at the configured widths), matrix and attention work divided by the number of linked devices plus the time to exchange its activations; other nodes run on one device. Totals are the sums over nodes, resident memory is the weights and cache at their widths, and the printed table shows these figures. More bandwidth or compute never increases an estimate and a larger context never decreases one.",
  ["configurations"], "all devices, bit widths, batch and context sizes and architectures",
  T13 + "latency is not tested.",
  ["onnx_tool/llm.py", "onnx_tool/device.py"], [("latency profile", "Builder profile methods")], ["per-layer and total figures"])

p("C25", "Pool-backed inference computes what the model defines",
  "Running a model in the planned memory pool (inference/) returns, for every sequence of calls with any input shapes inside the declared ranges and in any input order, exactly the named outputs with the shapes and values the operators define for those inputs alone: each input's dimensions come from that input, views of simultaneously live tensors never overlap, no view exceeds its block, and neither earlier calls nor a call that failed half way leave a trace in later results. MemoryPool views share the pool's bytes, refuse unknown names, larger shapes and blocks outside the pool, and writing one changes only its own block. Attention over a KV cache gives the same results however the tokens are cut into calls, and writes exactly its own rows of the cache.",
  ["histories", "inputs", "programs"], "all graphs of supported kernels (2-D windows, dimensions the shape engine covers), shape ranges and call sequences",
  T13 + "the inference package is not tested (and needs torch).",
  ["inference/memory_pool.py", "inference/infer.py", "inference/kernels.py"], [("memory pool", "MemoryPool.get/get_batch/fill_tensor/zero_"), ("graph execution", "GraphInfer.forward"), ("kernels", "KernelRegistry kernels")], ["outputs of forward, pool views"])

p("C26", "Exported tensors and edited interfaces contain what was asked",
  "Exporting weights writes one array file per requested (or every) initializer, with exactly its values and shape, under its name made file-safe, converted to half precision only when asked and only for floating-point weights; unknown names are reported and skipped. Editing input/output shapes changes exactly the named tensors' dimensions as given, numeric or symbolic, and leaves the rest of the model as it was; command-line use gives the same results as the functions.",
  ["inputs", "configurations"], "all initializer names, types and selections, and all shape strings",
  T13 + "neither is tested.",
  ["onnx_tool/__init__.py", "onnx_tool/__main__.py"], [("export", "model_export_tensors_numpy"), ("interface edit", "model_io_modify"), ("command line", "__main__")], ["files written"])
p("C27", "Language-model kernels compute their stated functions",
  "The inference kernels of language models compute, for any sizes, batch, numbers of query and key/value heads and operand layout (three- or four-dimensional): SDPA, for every token and head, the softmax-weighted mean of the values at its own and all earlier positions, scaled by the root of the head size, each group of query heads reading its key/value head; with a cache, positions before the call come from the rows of its own layer and the call writes exactly the rows of its own tokens, at any past length, after restarts or rewinds and with layers interleaved. Rope rotates each head's halves by the table row of the token's position; LayerNormalization (layer, rms, per-head), Layernrom, Mad, Silu, Gelu (exact or tanh), RangeGather and GatherElements return what their definitions say. A whole decoder built from a description and run with a cache gives the same logits however the text is cut into calls, and when a part of it is read again with other tokens, as the model without a cache reading it at once.",
  ["inputs", "histories"], "all operand shapes, head counts, cache widths, positions and sequences of calls",
  T13 + "the inference package is not tested (and needs torch).",
  ["inference/kernels.py", "inference/infer.py"], [("attention", "SDPAKernel"), ("rotary embedding", "RopeKernel"), ("normalisation", "LayerNormKernel"), ("point-wise and gathering", "MadKernel, SiluKernel, GeluKernel, RangeGatherKernel, GatherElementsKernel")], ["kernel outputs, cache contents"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
