SPECIFICATION Spec
CONSTANT Archs = {"LlamaForCausalLM", "Qwen2ForCausalLM", "Qwen3ForCausalLM", "Qwen3_5ForConditionalGeneration", "Qwen3_5MoeForCausalLM", "DeepSeekV4ForCausalLM", "MiniMaxM2ForCausalLM", "Phi3ForCausalLM", "PhiForCausalLM", "GPTJForCausalLM", "GPT2LMHeadModel", "UserForCausalLM"}
INVARIANTS Ordered Used Unique ParamsClosed Linear1 BatchLinear ReadsHeld CacheRead Resident SelfMatch
PROPERTY Mono
CHECK_DEADLOCK FALSE
