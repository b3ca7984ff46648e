import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
TR='tinynn/graph/tracer.py'
prop('T01','Generated code reproduces the traced model',
 'For every model the tracer accepts, the generated script plus weight file (and an in-place commit of the graph) builds a model that returns the same outputs, in the same order, as the original on every input, whether or not the constructors were captured. Tracing the generated model again gives the same function.',
 ['programs','inputs','configurations'],'all models built from the supported modules, functions and operators, all names and nestings of submodules, all constructor arguments, all signatures; single and repeated round trips',
 'The tests generate code for a fixed list of models and mostly only check that it runs; the space of operator sequences, name collisions and constructor arguments is never enumerated.',
 [TR],[('TraceGraph.generate_code/__gen_init_code/__gen_forward_code',TR),('gen_module_constrctor_line',TR),('inplace_commit',TR)],
 ['outputs of the re-imported model','outputs after inplace_commit'])
prop('T02','Tracing leaves the model, PyTorch and the tracer as they were',
 'After tracing, successfully or interrupted by an exception raised anywhere in the constructor or the forward function, every PyTorch function and class is back to its original, the model (weights, buffers, hooks, attributes, train/eval flags) and the dummy input are unchanged, and any model traces to the same code as before.',
 ['fault_sequences','crash_points','histories'],'every point of the traced code at which an exception (including KeyboardInterrupt) may be raised, every sequence of successful, failed and nested tracing sessions',
 'No test makes tracing fail; a leak only shows in what runs afterwards in the same process.',
 [TR],[('patch_helper, patch_modules, patch_funcs, hook_modules',TR),('tracer_context, construct_trace_graph',TR)],
 ['attributes of torch, torch.Tensor, torch.nn','state of the traced model','code generated afterwards'])
prop('T03','Graph edits do exactly what they say',
 'Inserting a module after, before or between nodes, removing or replacing a node, cutting out a subgraph and exposing the states of recurrent layers change the function of the traced model exactly at the requested place and nowhere else, in any sequence. The graph stays well formed: producers come before their consumers and names stay unique.',
 ['histories','programs'],'all sequences of edits on all graphs up to a size, including multi-output nodes, repeated operands, several edges between two nodes and several outputs',
 'Tests exercise edits only through the quantizer on a few models; sequences of edits and multi-edge cases are not enumerated.',
 [TR],[('insert_after, insert_between, insert_before, remove_node, replace_node_module',TR),('reset_input_output_for_graph, add_state_input_outputs',TR)],
 ['outputs of the model generated from the edited graph','order and names of nodes'])
MO='tinynn/graph/modifier.py'; PR='tinynn/prune/'
prop('P01','A pruned model computes what the masked original computes',
 'For every supported network and sparsity, pruning removes the chosen channels from all coupled layers consistently: the pruned model runs, keeps the input and output interface, and its outputs equal those of the original with the pruned channels zeroed out. Surviving weights, biases and normalisation statistics are copied unchanged and in their original order.',
 ['programs','configurations','inputs'],'all networks up to a size over convolutions (grouped, depthwise, transposed), linear and recurrent layers, normalisation, and shape operators (add, cat, split, reshape, flatten, transpose...), all sparsities and metrics',
 'Tests compare shapes for fixed networks and sparsities; numerical agreement over topologies, sparsities and channel counts is not checked.',
 [MO,PR+'oneshot_pruner.py','tinynn/graph/masker.py'],[('GraphChannelModifier, SubGraph, *Modifier.apply_mask',MO),('ChannelModifierMasker','tinynn/graph/masker.py')],
 ['outputs of the pruned model','shapes and values of its parameters'])
prop('P02','Pruning honours sparsity, exclusions, metric and multiples',
 'For each prunable layer the number of removed output channels follows the sparsity configured for it (default, per layer, excluded) and the channel multiple, the removed channels are the least important ones under the configured metric evaluated on all layers coupled with it, and layers coupled with an excluded operator, and a final fully connected layer that is to be skipped, keep all their output channels.',
 ['configurations','inputs'],'all combinations of sparsity, exclusions, metrics, multiples, bn compensation, over a set of topologies',
 'Tests check a few shapes at fixed sparsity 0.25/0.5 with the default metric.',
 [MO,PR+'oneshot_pruner.py'],[('calc_prune_idx, fill_idx_map, *_norm metrics',MO),('OneShotChannelPruner.register_mask',PR+'oneshot_pruner.py')],
 ['shapes and surviving weights of the pruned layers'])
prop('P03','Pruner configuration and histories are well behaved',
 'A pruner accepts a dict or a file, leaves the given dict as it was, writes a configuration that reproduces the same pruning when loaded, and the documented call sequences (prune, or register_mask / apply_mask / reset / prune repeatedly, pruning an already pruned model) give the same result as a fresh pruner would. A masked model behaves like the pruned one before the masks are applied.',
 ['histories','configurations'],'all sequences of pruner operations up to a length, all configurations, dict or file',
 'Tests call prune() once (or prune twice) per model.',
 [PR+'base_pruner.py',PR+'oneshot_pruner.py',PR+'admm_pruner.py',PR+'identity_pruner.py'],[('parse_config, generate_config, reset',PR+'base_pruner.py'),('register_mask, apply_mask',PR+'oneshot_pruner.py')],
 ['the configuration file','the configuration dict','outputs after each operation'])
prop('P04','FLOPs and masks are computed exactly',
 'The reported FLOPs of a traced model equal the number of multiply operations of its layers as documented, are unaffected by repeated calculation, and after pruning equal those of the pruned network.',
 ['programs','configurations'],'all layer configurations (kernel, stride, groups, bias, shared modules) up to a bound, before and after pruning',
 'Tests only print FLOPs.',
 [PR+'base_pruner.py'],[('calc_flops',PR+'base_pruner.py')],['pruner.calc_flops()'])
QZ='tinynn/graph/quantization/quantizer.py'
prop('Q01','Quantization rewriting and fusion keep the float function',
 'With observation on and fake quantization off, the model a quantizer prepares (rewritten, fused, with stubs inserted) computes the same outputs as the original floating point model, for quantization-aware training and for post-training quantization, for every supported operator sequence and configuration.',
 ['programs','inputs','configurations'],'all models up to a size over the operators the quantizer rewrites or fuses, all backends and the options that change rewriting',
 'Tests check which modules are fused and that a few models run; functional equality over sequences is not checked.',
 [QZ,'tinynn/graph/quantization/fused_modules.py','tinynn/graph/quantization/qat_modules.py','tinynn/graph/quantization/modules.py'],
 [('rewrite_quantize_graph, prepare_qat_prep, _prepare_qat',QZ)],['outputs of the prepared model with fake quantization disabled'])
prop('Q02','Prepared models follow the requested quantization scheme',
 'Every quantized weight and activation uses the bit width, range, symmetry, granularity and rounding requested by the configuration and backend, the input statistics given by the user determine the parameters of the model inputs, and operators that cannot be quantized stay in floating point, surrounded by the conversions they need.',
 ['configurations','programs'],'all combinations of backend, asymmetric, per_tensor, weight/activation bit widths, input statistics, dynamic quantization, over a set of models',
 'Tests look at a handful of configurations.',
 [QZ,'tinynn/graph/quantization/fake_quantize.py','tinynn/graph/quantization/observer.py'],[('prepare_qconfig, set_quantizable_op_stats, parse_config',QZ)],
 ['qschemes, ranges and scales of the fake quantizers'])
prop('Q03','The converted model equals the fake-quantized model',
 'Converting a prepared model gives a model whose outputs agree with the fake-quantized model within the rounding of one quantization step per quantized operator, with integer weights inside their range and the same scales and zero points.',
 ['programs','inputs','configurations'],'all models up to a size over the quantizable operators, all schemes the backend supports',
 'Tests check conversion runs; they do not compare it with the fake-quantized model over sequences and schemes.',
 [QZ],[('convert',QZ)],['outputs of the model after convert()'])
prop('Q04','Per-layer quantization configuration round trips and is honoured',
 'The layer-wise configuration written by a quantizer, loaded unchanged, leaves the result as it is; turning off an entry (or an operator kind) leaves exactly that layer unquantized and everything else as it was. A configuration given as a dict is not modified.',
 ['configurations','histories'],'every subset of layers turned off, every action per operator kind, dict or file',
 'Tests use one or two hand-written configurations.',
 [QZ],[('generate_config, parse_config',QZ)],['which modules carry fake quantizers','the file on disk'])
prop('Q05','Quantizable replacements of recurrent and other layers equal the originals',
 'The quantizable or rewritten forms of PyTorch layers (LSTM, GRU, GRUCell-style loops, PReLU, SiLU, GLU, layer norm and the like) and fused training modules give the same outputs and states as the layers they replace, for all constructor arguments, and their conversion back restores the original weights.',
 ['inputs','configurations'],'all constructor argument combinations (layers, directions, bias, batch order, activation, groups, dimensions)',
 'The tests compare a few argument combinations with a loose tolerance.',
 ['tinynn/graph/quantization/quantizable/gru.py','tinynn/graph/quantization/quantizable/lstm.py','tinynn/graph/quantization/modules.py','tinynn/graph/quantization/qat_modules.py','tinynn/graph/quantization/fused_modules.py'],
 [('GRU, QPReLU, QSiLU, QLayerNorm, ConvTransposeBn2d, ConvBn1d and others','tinynn/graph/quantization/')],['outputs, states, weights'])
prop('Q06','Weight equalisation and statistics restoration preserve the function',
 'Cross-layer equalisation (with or without high bias absorption) and batch norm restoration change the weights but not what the model computes, and never produce non-finite weights, for every pair or chain of layers they accept. The set of layers they touch is limited to those whose rescaling is exactly compensated.',
 ['programs','inputs'],'all chains and DAGs of convolutions, norms, linear layers and activations up to a size, with dead channels, extreme ranges, shared layers, residuals',
 'Three tests cover one network each.',
 ['tinynn/graph/quantization/algorithm/cross_layer_equalization.py','tinynn/util/bn_restore.py'],[('cross_layer_equalize, high_bias_absorb, model_rep_bn','tinynn/graph/quantization/algorithm/cross_layer_equalization.py'),('restore_bn','tinynn/util/bn_restore.py')],
 ['outputs and weights of the equalised model'])
prop('Q07','De-quantizing a quantized model restores the float graph',
 'Applying the de-quantizer to a quantized (or fake-quantized generated) model gives a floating point model that computes the same outputs as the quantized one up to quantization error, with no quantization module left behind.',
 ['programs','inputs'],'all models up to a size over the quantizable operators',
 'Tests check it on one or two models.',
 [QZ],[('DeQuantizer',QZ)],['outputs and modules of the de-quantized model'])
CV='tinynn/converter/'
prop('V01','The TFLite model computes what the PyTorch model computes',
 'For every supported PyTorch operator and every combination of its arguments (shapes, dims, strides, padding, dilation, groups, keepdim, broadcasting, dtypes, negative indices), the converted TFLite model gives the outputs of the PyTorch model within floating point tolerance, or conversion refuses loudly.',
 ['inputs','configurations'],'operators x argument grids x ranks',
 'The operator tests only run one or two argument combinations per operator, and a numerical mismatch is a warning in many of them.',
 [CV+'operators/torch/aten.py',CV+'operators/torch/base.py',CV+'operators/torch/prim.py'],[('ATen*Operator.parse',CV+'operators/torch/aten.py')],['outputs of the TFLite interpreter'])
prop('V02','Graph optimisation preserves the model function at every level',
 'The TFLite models produced with each optimisation level compute the same outputs as the PyTorch model for every sequence of operators, also when intermediate results are used several times or are themselves model outputs.',
 ['programs','configurations'],'all operator sequences and small DAGs over the operators the optimiser rewrites, all optimisation levels',
 'The optimiser tests check operator counts on hand-written patterns, not results on sequences or on shared intermediate results.',
 [CV+'operators/optimize.py',CV+'operators/graph.py'],[('GraphOptimizer.optimize and its passes',CV+'operators/optimize.py')],['outputs of the TFLite interpreter per level'])
prop('V03','The converted model keeps the input/output interface',
 'Inputs and outputs of the TFLite model come in the order, number, shape and dtype of the PyTorch model, including repeated outputs, outputs that are inputs or constants, unused inputs, nested outputs, and the requested input/output transposes.',
 ['programs','configurations'],'all small input/output structures x transposes x optimisation levels',
 'Tests use single-output models with default layouts.',
 [CV+'base.py',CV+'operators/graph.py'],[('TFLiteConverter.init_*',CV+'base.py')],['interpreter input and output details and values'])
prop('V04','Converter options change the form, not the function',
 'Options that only select how a model is expressed (group convolution rewriting, RNN unrolling, LSTM mapping, tensor grouping, transpose limits, micro rewriting, bypassing or hoisting passes, gelu/hardswish forms and the like) do not change the outputs.',
 ['configurations','programs'],'all combinations of options up to pairs x the models each affects',
 'Tests enable one option at a time on one model.',
 [CV+'base.py',CV+'operators/optimize.py',CV+'operators/torch/aten.py'],[('TFLiteConverter options',CV+'base.py')],['outputs of the TFLite interpreter'])
prop('V05','Hybrid and float16 quantization stay within their error bound',
 'Converting with hybrid (dynamic range) or float16 weights keeps the interface, stores each quantized weight within half a step of the original under the requested granularity and range, and leaves tensors that must stay float alone.',
 ['configurations','inputs'],'layer kinds x per-channel/per-tensor x symmetric x shared/constant weights',
 'Tests only check that conversion runs.',
 [CV+'operators/hybrid_quantizer.py',CV+'operators/half_quantizer.py'],[('HybridQuantizer, HalfQuantizer',CV+'operators/hybrid_quantizer.py')],['weights and outputs of the TFLite model'])
prop('V06','Quantized models convert to equivalent TFLite models',
 'A quantized PyTorch model converts to a TFLite model with the same scales, zero points and integer weights, whose outputs differ from the PyTorch quantized outputs by at most a rounding step, for every supported operator, scheme, and input/output type.',
 ['programs','configurations','inputs'],'quantizable operators and sequences x int8/uint8/int16 x per-channel x float or integer inputs and outputs',
 'Tests check a few operators, mostly that conversion succeeds.',
 [CV+'base.py',CV+'operators/torch/quantized.py',CV+'operators/graph.py'],[('quantize_target_type handling, quantized operators',CV+'base.py')],['tensors and outputs of the TFLite model'])
prop('V07','Conversion is deterministic and leaves its inputs alone',
 'Converting the same model with the same options gives the same file whatever the hash seed, the number of earlier conversions in the process or the order of options; the PyTorch model, dummy input and option objects are unchanged, and the file is a valid flatbuffer whose operator versions cover the operators used.',
 ['histories','configurations'],'hash seeds, repeated and interleaved conversions, over a set of models',
 'Tests convert each model once per process.',
 [CV+'base.py',CV+'operators/graph.py',CV+'operators/op_version.py'],[('CommonGraph, OPVersioner',CV+'operators/op_version.py')],['bytes of the TFLite file','state of the model'])
prop('U01','The training helper keeps the best model and its schedules',
 'For every history of accuracies, training keeps as best model the one with the best validation accuracy, applies the optimiser, scheduler and quantization freezing steps at the configured epochs, and running averages equal the averages of the values given.',
 ['histories'],'all accuracy histories up to a length x configurations',
 'No test covers the training loop.',
 ['tinynn/util/train_util.py'],[('train, validate, AverageMeter','tinynn/util/train_util.py')],['best_model.pth','state of the model'])
prop('U02','The exported converter configuration reproduces the conversion',
 'A conversion described through the exported configuration and input files gives the same model as the direct conversion, for every number and layout of inputs and outputs and all options.',
 ['configurations'],'input/output counts, transposes, options',
 'No test parses an exported configuration.',
 ['tinynn/util/converter_util.py'],[('export_converter_files, parse_config','tinynn/util/converter_util.py')],['bytes of the TFLite file'])
prop('L01','Weight-only quantization of language models matches its definition',
 'Quantized linear layers and attention replacements of the language model toolkit give the outputs of the layers they replace within quantization error.',
 ['inputs','configurations'],'layer shapes x bit widths x batch sizes',
 'The tests need a GPU and the transformers package.',
 ['tinynn/llm_quant/modules.py','tinynn/llm_quant/llama.py'],[('TinyQLinear, TinyQKVLinear, attention replacements','tinynn/llm_quant/modules.py')],['outputs'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,sch)
print(len(P))
