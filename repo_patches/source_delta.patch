From 7295b60677a39e7394bd474c9afdf21a1a418df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 01/79] fix: write non contiguous tensors and views correctly
 to safetensors

---
 sd_mecha/streaming.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 100c2f7..e4aec04 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -335,8 +335,10 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
-    # assume tensor is not spare nor contiguous and on the cpu
-    total_bytes = len(tensor.untyped_storage())
+    # assume tensor is not sparse and on the cpu
+    # the storage can be larger than the tensor or laid out differently, i.e. for views and transposed tensors
+    tensor = tensor.contiguous()
+    total_bytes = tensor.numel() * tensor.element_size()
 
     ptr = tensor.data_ptr()
     if ptr == 0:
-- 
2.43.0


From 74f6d7c8e35d660d771ee644b6ce22521239a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 02/79] fix: never return uninitialized data when a safetensors
 file is truncated or read partially

---
 sd_mecha/streaming.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index e4aec04..01d56eb 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -3,6 +3,7 @@ import contextlib
 import ctypes
 import dataclasses
 import json
+import os
 import pathlib
 import struct
 import sys
@@ -128,9 +129,16 @@ class InSafetensorsDict(SafetensorsMapping):
             yield key, self[key]
 
     def _read_header(self):
-        header_size_bytes = self.file.read(8)
+        header_size_bytes = bytearray(8)
+        if read_into(self.file, header_size_bytes) != 8:
+            raise ValueError(f"Invalid safetensors file: {self.file_path} (truncated header)")
         header_size = struct.unpack('<Q', header_size_bytes)[0]
-        header_json = self.file.read(header_size).decode('utf-8').strip()
+        if header_size > os.fstat(self.file.fileno()).st_size - 8:
+            raise ValueError(f"Invalid safetensors file: {self.file_path} (truncated header)")
+        header_bytes = bytearray(header_size)
+        if read_into(self.file, header_bytes) != header_size:
+            raise ValueError(f"Invalid safetensors file: {self.file_path} (truncated header)")
+        header_json = header_bytes.decode('utf-8').strip()
         header = json.loads(header_json)
 
         # sort by memory order to reduce seek time
@@ -146,8 +154,16 @@ class InSafetensorsDict(SafetensorsMapping):
             else:
                 self.buffer = self.buffer[:necessary_buffer_size]
 
-            self.file.readinto(self.buffer)
             self.buffer_start_offset = start_pos
+            bytes_read = 0
+            try:
+                bytes_read = read_into(self.file, self.buffer)
+            finally:
+                if bytes_read < len(self.buffer):
+                    # never serve bytes that were not read
+                    self.buffer = self.buffer[:bytes_read]
+            if bytes_read < length:
+                raise ValueError(f"Unexpected end of file in {self.file_path}: the file is truncated or corrupted")
 
     def _load_tensor(self, tensor_name):
         tensor_info = self.header[tensor_name]
@@ -167,6 +183,18 @@ class InSafetensorsDict(SafetensorsMapping):
                 return torch.frombuffer(self.buffer, count=total_bytes // dtype_bytes, offset=buffer_offset, dtype=dtype).reshape(shape)
 
 
+def read_into(file, buffer: bytearray) -> int:
+    # a single raw read can return less bytes than requested, even before the end of the file
+    view = memoryview(buffer)
+    total = 0
+    while total < len(view):
+        bytes_read = file.readinto(view[total:])
+        if not bytes_read:
+            break
+        total += bytes_read
+    return total
+
+
 class StateDictKeyError(KeyError):
     """
     Exception raised when a requested key is missing from a streamed or in-memory state dict.
-- 
2.43.0


From 03b2ac4a7914c1e71f4c90dcc815e643e2d30f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 03/79] fix: handle partial writes when saving safetensors

---
 sd_mecha/streaming.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 01d56eb..5e4b1fc 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -291,7 +291,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             lock = contextlib.nullcontext()
 
         with lock:
-            self.file.write(state.buffer[:state.memory_used])
+            write_all(self.file, state.buffer[:state.memory_used])
             buffer_offset = self.flushed_size
             self.flushed_size += state.memory_used
             state.memory_used = 0
@@ -348,18 +348,25 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 
                     # calculate the new position and write the chunk
                     self.file.seek(chunk_start + data_offset)
-                    self.file.write(data)
+                    write_all(self.file, data)
 
                 # we made just enough space for the header
                 overhead = 0
 
             self.file.seek(0)
-            self.file.write(struct.pack('<Q', max(self.max_header_size, header_size)))
-            self.file.write(header_json)
-            self.file.write(b' ' * overhead)
+            write_all(self.file, struct.pack('<Q', max(self.max_header_size, header_size)))
+            write_all(self.file, header_json)
+            write_all(self.file, b' ' * overhead)
             self.file.close()
 
 
+def write_all(file, data) -> None:
+    # a single raw write can write less bytes than requested
+    view = memoryview(data)
+    while view:
+        view = view[file.write(view):]
+
+
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
-- 
2.43.0


From eb688d3aa7cde709c73e12adca4e182ca1f144c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 04/79] fix: reallocate the data section when the output buffer
 size is zero

---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 5e4b1fc..b534d85 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -340,8 +340,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 self.file = open(self.file_path, "rb+")
 
                 # move data in chunks from the end to avoid overwriting
-                for chunk_end in tqdm(range(old_file_end, old_data_section, -self.minimum_buffer_size), desc="Reallocating data section"):
-                    chunk_start = max(chunk_end - self.minimum_buffer_size, old_data_section)
+                max_chunk_size = max(self.minimum_buffer_size, 2**20)
+                for chunk_end in tqdm(range(old_file_end, old_data_section, -max_chunk_size), desc="Reallocating data section"):
+                    chunk_start = max(chunk_end - max_chunk_size, old_data_section)
                     chunk_size = chunk_end - chunk_start
                     self.file.seek(chunk_start)
                     data = self.file.read(chunk_size)
-- 
2.43.0


From 060d04176f64363a5199400bf5e59e5633b1168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 05/79] fix: merge models with unknown keys from files

---
 sd_mecha/merging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index e48c15c..a6312c3 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -388,7 +388,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
         node.state_dict, node_path = self.__load_dict(node)
-        metadata = OrderedDict(node.state_dict.metadata())
+        metadata = OrderedDict(
+            (k, KeyMetadata(v.shape, v.dtype, optional=True))
+            for k, v in node.state_dict.metadata()
+        )
         node.model_config = self.__determine_model_config(metadata, node.model_config)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
-- 
2.43.0


From 3df4eb32631eb2333ee29933f299b35bac236629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 06/79] fix: do not remove ema keys from the registered model
 configs when omitting them from a merge

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index a6312c3..102b908 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -158,7 +158,7 @@ def merge(
         if strict_weight_space and recipe.merge_space != "weight":
             raise ValueError(f"recipe should be in 'weight' space, not '{recipe.merge_space.identifier}'")
 
-        recipe_metadata = recipe.model_config.metadata()
+        recipe_metadata = OrderedDict(recipe.model_config.metadata())
         if not omit_extra_keys:
             recipe, recipe_metadata = copy_extra_keys(recipe)
 
-- 
2.43.0


From d96be21b42cb5f0b293d6bbd462304717c97e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 07/79] fix: do not keep inferred model configs on recipe nodes
 once a merge is over

---
 sd_mecha/merging.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 102b908..0491765 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -350,11 +350,15 @@ def open_input_dicts(
     check_mandatory_keys: bool = False,
     empty_cuda_cache: bool = False,
 ):
+    load_visitor = LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys)
     try:
-        recipe.accept(LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys))
+        recipe.accept(load_visitor)
         yield recipe
     finally:
         recipe.accept(CloseInputDictsVisitor())
+        # an inferred config is only valid for the current inputs and recipe
+        for node, model_config in reversed(load_visitor.original_configs):
+            node.model_config = model_config
         if empty_cuda_cache:
             gc.collect()
             torch.cuda.empty_cache()
@@ -369,6 +373,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     dicts_cache: MutableMapping[str, Mapping[str, torch.Tensor]] = dataclasses.field(default_factory=dict)
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
     param_config: Optional[ModelConfig] = None
+    original_configs: List[Tuple[RecipeNode, Optional[ModelConfig]]] = dataclasses.field(default_factory=list)
 
     def visit_literal(self, node: LiteralRecipeNode):
         if not isinstance(node.value, Mapping):
@@ -383,6 +388,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
             elif k not in metadata:
                 metadata[k] = KeyMetadata(None, None, optional=True)
 
+        self.original_configs.append((node, node.model_config))
         node.model_config = self.__determine_model_config(metadata, node.model_config)
         check_model_config(node.value, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, "<in-memory state dict>")
 
@@ -392,6 +398,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
             (k, KeyMetadata(v.shape, v.dtype, optional=True))
             for k, v in node.state_dict.metadata()
         )
+        self.original_configs.append((node, node.model_config))
         node.model_config = self.__determine_model_config(metadata, node.model_config)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
-- 
2.43.0


From 86bb7dcbfdb94153472a122b77ae2ee8c6fbc82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 08/79] fix: allow empty dictionaries in recipes

---
 sd_mecha/merging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 0491765..7fdcab4 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -687,10 +687,10 @@ class CastInputDicts(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
         if (
             isinstance(node.value, torch.Tensor | int | float) or
-            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), torch.Tensor | int | float)
+            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), torch.Tensor | int | float)
         ):
             return node.to(device=self.device, dtype=self.dtype)
-        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), RecipeNode):
+        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), RecipeNode):
             return LiteralRecipeNode(
                 {k: v.accept(self) for k, v in node.value.items()},
                 model_config=node.model_config,
-- 
2.43.0


From 17fd552e4d6f0c90e83f6e13596b19cb22af642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 09/79] fix: support multiple in-memory models when keeping
 extra keys

---
 sd_mecha/recipe_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index f742f84..533688c 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -113,6 +113,9 @@ class LiteralRecipeNode(RecipeNode):
 
     def __contains__(self, item):
         if isinstance(item, LiteralRecipeNode):
+            if isinstance(self.value, (dict, torch.Tensor)) or isinstance(item.value, (dict, torch.Tensor)):
+                # the equality of tensors is not a boolean
+                return self.value is item.value
             return self.value == item.value
         else:
             return False
-- 
2.43.0


From 9d341a8bc5ec97c716386b74f83812fe75cd4ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 10/79] fix: bind each lycoris conversion to its own config

---
 sd_mecha/extensions/builtin/lycoris.py | 34 ++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/sd_mecha/extensions/builtin/lycoris.py b/sd_mecha/extensions/builtin/lycoris.py
index 935153f..4a2bb35 100644
--- a/sd_mecha/extensions/builtin/lycoris.py
+++ b/sd_mecha/extensions/builtin/lycoris.py
@@ -15,21 +15,25 @@ def _register_all_lycoris_configs():
                 LycorisModelConfig(base_config, "kohya", "lora", list(lycoris_algorithms)),
         ):
             model_configs.register_aux(lyco_config)
-            lora_config_id = lyco_config.identifier
-            base_config_id = lyco_config.base_config.identifier
-
-            @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
-            def diffusers_lora_to_base(
-                lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
-                **kwargs,
-            ) -> Return(torch.Tensor, "delta", base_config_id):
-                key = kwargs["key"]
-                lycoris_keys = lyco_config.to_lycoris_keys(key)
-                if not lycoris_keys:
-                    raise StateDictKeyError(key)
-
-                lycoris_key = next(iter(lycoris_keys))
-                return compose_lora_up_down(lora, lycoris_key.split(".")[0])
+            _register_lycoris_conversion(lyco_config)
+
+
+def _register_lycoris_conversion(lyco_config: "LycorisModelConfig"):
+    lora_config_id = lyco_config.identifier
+    base_config_id = lyco_config.base_config.identifier
+
+    @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
+    def diffusers_lora_to_base(
+        lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
+        **kwargs,
+    ) -> Return(torch.Tensor, "delta", base_config_id):
+        key = kwargs["key"]
+        lycoris_keys = lyco_config.to_lycoris_keys(key)
+        if not lycoris_keys:
+            raise StateDictKeyError(key)
+
+        lycoris_key = next(iter(lycoris_keys))
+        return compose_lora_up_down(lora, lycoris_key.split(".")[0])
 
 
 def compose_lora_up_down(state_dict: Mapping[str, torch.Tensor], key: str):
-- 
2.43.0


From d27b0a2762771b24fe2b8c11d4abb40a62d8244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 11/79] fix: register flux config conversions

---
 sd_mecha/extensions/builtin/model_configs/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/__init__.py b/sd_mecha/extensions/builtin/model_configs/__init__.py
index 78104bc..b78f497 100644
--- a/sd_mecha/extensions/builtin/model_configs/__init__.py
+++ b/sd_mecha/extensions/builtin/model_configs/__init__.py
@@ -17,3 +17,4 @@ from .convert_sdxl_diffusers_unet_to_original import convert_sdxl_diffusers_unet
 from .convert_sd1_kohya_to_original import convert_sd1_kohya_to_original
 from . import convert_sdxl_blocks
 from . import convert_sd1_blocks
+from . import convert_flux
-- 
2.43.0


From b6093fcef1024ce877a81ce1a64c58acbd68d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 12/79] fix: serialize booleans as recipe constants

---
 sd_mecha/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 4db8a7f..83586b9 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -210,7 +210,8 @@ class SerializerVisitor(RecipeVisitor):
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
-        if isinstance(value, (int, float)):
+        # bool is a subclass of int and needs to be handled before it
+        if isinstance(value, (int, float)) and not isinstance(value, bool):
             return str(value)
         # int or float needs to be handled before this (1.0 == True)
         if isinstance(value, Hashable) and value in REVERSE_CONSTANTS:
-- 
2.43.0


From bc22ef1c9d95bb91099736b8cc9b45cd9f071e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 13/79] fix: deserialize positional strings that contain an
 equal sign

---
 sd_mecha/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 83586b9..3d77170 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -68,7 +68,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         positional_args = []
         named_args = {}
         for arg_index, arg in enumerate(args):
-            if '=' in arg:
+            if '=' in arg and not arg.startswith('"'):
                 key, value = arg.split('=', maxsplit=1)
                 named_args[key] = get_arg_value(value, arg_index)
             else:
-- 
2.43.0


From c1c2dd9fe18033f5a511e3b19f0973979c2eb3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 14/79] fix: escape newlines in serialized strings

---
 sd_mecha/serialization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 3d77170..ac30b26 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -102,6 +102,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         for char in line:
             if is_escape:
                 is_escape = False
+                char = ESCAPES.get(char, char)
             elif char == "\\":
                 is_escape = True
                 continue
@@ -206,6 +207,8 @@ class SerializerVisitor(RecipeVisitor):
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
             value = value.replace("\\", "\\\\").replace('"', "\\\"")
+            for escaped_char, char in ESCAPES.items():
+                value = value.replace(char, f"\\{escaped_char}")
             return f'"{value}"'
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
@@ -228,6 +231,11 @@ class SerializerVisitor(RecipeVisitor):
             return f"&{len(self.instructions) - 1}"
 
 
+# instructions are separated by newlines
+ESCAPES = {
+    "n": "\n",
+    "r": "\r",
+}
 CONSTANTS = {
     "null": None,
     "true": True,
-- 
2.43.0


From 83ab266c65f7dbcc63071f50395cf8f1f8bb9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 15/79] fix: deserialize infinity and nan

---
 sd_mecha/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index ac30b26..cbf5ab1 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -86,7 +86,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
                 return results[ref_index]
             elif arg.startswith('"') and arg.endswith('"'):
                 return arg[1:-1]
-            elif '.' in arg or 'e' in arg.lower():
+            elif '.' in arg or 'e' in arg.lower() or arg.lower().lstrip("+-") in ("inf", "nan"):
                 return float(arg)
             else:
                 return int(arg)
-- 
2.43.0


From e170f6b74cb57f481b135a3b7ac1deee9d0f5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 16/79] fix: deserialize recipes that end with a newline or are
 read line by line

---
 sd_mecha/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index cbf5ab1..9459652 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -32,6 +32,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
     """
     if not isinstance(recipe, list):
         recipe = recipe.split("\n")
+    recipe = [line.rstrip("\r\n") for line in recipe]
 
     if not recipe[0].startswith("version"):
         raise RuntimeError("bad format: expected version at line 1")
@@ -45,7 +46,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
 
     def parse(line):
         line = line.strip()
-        if line.startswith("#"):
+        if not line or line.startswith("#"):
             return
 
         command, *args = tokenize(line)
-- 
2.43.0


From f7aa7ea024971a7526c57bbdca14d78026064db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 17/79] fix: preserve the merge space of literals and allow
 structural configs in serialized recipes

---
 sd_mecha/serialization.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 9459652..eca23b4 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -172,23 +172,30 @@ def get_version_header(version: str):
     return f"version {version}"
 
 
+def get_config_identifier(model_config) -> Optional[str]:
+    identifier = getattr(model_config, "identifier", None)
+    # structural configs are derived from the inputs and cannot be referred to by identifier
+    return identifier if identifier != "structural" else None
+
+
 class SerializerVisitor(RecipeVisitor):
     def __init__(self, instructions: Optional[List[str]] = None):
         self.instructions = instructions if instructions is not None else []
 
     def visit_literal(self, node: LiteralRecipeNode):
         value = self.__serialize_value(node.value)
-        if node.model_config is None:
+        config = get_config_identifier(node.model_config)
+        if config is None and node.merge_space.identifier == "param":
             return value
         else:
-            config = self.__serialize_value(node.model_config.identifier)
+            config = self.__serialize_value(config)
             merge_space = self.__serialize_value(node.merge_space.identifier)
             line = f"literal {value} model_config={config} merge_space={merge_space}"
             return self.__add_instruction(line)
 
     def visit_model(self, node: ModelRecipeNode) -> str:
         path = self.__serialize_value(str(node.path))
-        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        config = self.__serialize_value(get_config_identifier(node.model_config))
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"model {path} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
-- 
2.43.0


From adc0d67883853758edff079a537eaea40bfc69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 18/79] fix: serialize recipes made of a single literal

---
 sd_mecha/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index eca23b4..bbc93da 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -154,7 +154,9 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
         A string representation of the recipe, suitable for writing to a .mecha file.
     """
     serializer = SerializerVisitor()
-    recipe.accept(serializer)
+    root = recipe.accept(serializer)
+    if isinstance(recipe, LiteralRecipeNode) and not (serializer.instructions and serializer.instructions[-1].startswith("literal ")):
+        serializer.instructions.append(f"literal {root}")
     version_header = get_version_header(MECHA_FORMAT_VERSION)
     serialized = "\n".join([version_header] + serializer.instructions)
 
-- 
2.43.0


From c23a43385ba3494ee2ca455a1cf338ca101cfd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 19/79] fix: pass numeric hyperparameters to merge methods
 without going through tensors

---
 sd_mecha/merging.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 7fdcab4..cb88984 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -702,9 +702,18 @@ class CastInputDicts(RecipeVisitor):
         return node.to(device=self.device, dtype=self.dtype)
 
     def visit_merge(self, node: MergeRecipeNode):
+        input_types = node.merge_method.get_input_types().as_dict(len(node.args))
         return MergeRecipeNode(
             node.merge_method,
-            tuple(v.accept(self) for v in node.args),
-            {k: v.accept(self) for k, v in node.kwargs.items()},
+            tuple(self.__visit_arg(v, input_types[i]) for i, v in enumerate(node.args)),
+            {k: self.__visit_arg(v, input_types[k]) for k, v in node.kwargs.items()},
             node.cache,
         )
+
+    def __visit_arg(self, arg: RecipeNode, expected_type: type):
+        if (
+            isinstance(arg, LiteralRecipeNode) and isinstance(arg.value, int | float) and
+            not isinstance(expected_type, TypeVar) and is_subclass(expected_type, int | float)
+        ):
+            return arg  # python numbers do not have a dtype, casting them to a tensor is lossy
+        return arg.accept(self)
-- 
2.43.0


From ab2910b1425c40bff8a7ff52ac4ec9807698b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 20/79] fix: reject arguments that are passed both by position
 and by name

---
 sd_mecha/extensions/merge_methods.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 364b772..7352f08 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -254,6 +254,10 @@ class MergeMethod:
                 raise RuntimeError
             return v
 
+        for k in params.args[:len(args)]:
+            if k in kwargs:
+                raise TypeError(f"Got multiple values for argument '{k}'")
+
         max_args = len(params.args) if not params.has_varargs() else float("inf")
         min_args = len(params.args) - len(defaults.args)
         n_args = len(args) + len([kwargs[k] for k in params.args if k in kwargs])
-- 
2.43.0


From 27e352bdd122b157099014b17fa19aa921a0b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 21/79] fix: pass overlap_emphasis correctly in dropout

---
 sd_mecha/merge_method_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 1d2bf39..0e93ad6 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -248,7 +248,7 @@ def dropout(
         subtract(model, a)
         for model in models
     ]
-    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_skew=overlap_emphasis, seed=seed)
+    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_emphasis=overlap_emphasis, seed=seed)
     return merge_methods.add_difference(a, ba_delta, alpha=alpha)
 
 
-- 
2.43.0


From 20f72145c46a780faae8228198ac3704ff8fd000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 22/79] fix: rescale merged deltas in ties_sum_with_dropout
 unless no_rescale is set and restore ties_with_dare

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 8 ++++----
 sd_mecha/merge_method_wrappers.py                     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index aae7a68..b20d472 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -699,13 +699,13 @@ def ties_sum_with_dropout(
         # Corner case
         return deltas * 0.0
     elif no_rescale:
-        # Rescale
-        # $$ \hat{\delta}^t = \tilde{\delta}^t / (1-p) $$
-        return deltas / (1.0 - probability) 
-    else:
         # No rescale
         # $$ \hat{\delta}^t = \tilde{\delta}^t $$
         return deltas
+    else:
+        # Rescale
+        # $$ \hat{\delta}^t = \tilde{\delta}^t / (1-p) $$
+        return deltas / (1.0 - probability)
 
 
 def binomial_coefficient_np(n, k):
diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 0e93ad6..1e86876 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -297,7 +297,7 @@ def ties_with_dare(
     res = ties_sum_with_dropout(
         *deltas,
         probability=probability,
-        rescale=rescale,
+        no_rescale=not rescale,
         k=k,
         vote_sgn=vote_sgn,
         seed=seed,
-- 
2.43.0


From 60ff4ccf506eb3625da1477045bd43fa29cf75e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 23/79] fix: enable the stock and median modes of
 ties_sum_extended only when asked for

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index b20d472..7463d21 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -497,9 +497,9 @@ def ties_sum_extended(  # aka add_difference_ties
 ) -> Return(Tensor, "delta"):
     filtered_delta, param_counts = ties_sum_deltas(*models, k=k, vote_sgn=vote_sgn)
 
-    if apply_median:
+    if not apply_median:
         # Model Stock
-        t = 1.0 if apply_stock else get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps)
+        t = 1.0 if not apply_stock else get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps)
 
         filtered_delta = filtered_delta.sum(dim=0)
 
-- 
2.43.0


From a40b5b51c163d9f6a814361890504d1b8270bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 24/79] fix: do not modify the inputs of tensor_sum

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 7463d21..b1d7f20 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -153,9 +153,11 @@ def tensor_sum(
 
     start_i, end_i, region_is_inverted = ratio_to_region(width, offset, a.size(0))
     if region_is_inverted:
+        b = b.clone()
         b[start_i:end_i] = a[start_i:end_i]
         return b
     else:
+        a = a.clone()
         a[start_i:end_i] = b[start_i:end_i]
         return a
 
-- 
2.43.0


From 6965030b558d0056293a080faa4e024876ebdbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 25/79] fix: do not modify alpha in multiply_quotient

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index b1d7f20..d608481 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -290,7 +290,7 @@ def multiply_quotient(
     c = torch.complex(c, torch.zeros_like(c))
 
     threshold = torch.maximum(torch.abs(ac_log), torch.abs(bc_log))
-    alpha *= torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
+    alpha = alpha * torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
 
     res = a * (b / c)**alpha
     res = torch.where(torch.isnan(res), a, res)
-- 
2.43.0


From 882dc761758fb8e2971afce18ba133c4441b7e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 26/79] fix: do not modify the inputs of rotate

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index d608481..d633e42 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -411,8 +411,8 @@ def rotate(
     b_neurons = b.reshape(*shape_2d)
     a_centroid = a_neurons.mean(0)
     b_centroid = b_neurons.mean(0)
-    a_neurons -= a_centroid
-    b_neurons -= b_centroid
+    a_neurons = a_neurons - a_centroid
+    b_neurons = b_neurons - b_centroid
 
     cache = kwargs.get("cache")
     if cache is not None:
-- 
2.43.0


From 4a3df0efa8babdafca3bd14de0d616678e5ad03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 27/79] fix: receive state dicts in rotate

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index d633e42..0d79294 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -383,8 +383,8 @@ def create_filter(shape: Tuple[int, ...] | torch.Size, alpha: float, tilt: float
 
 @merge_method
 def rotate(
-    a_dict: Parameter(Tensor),
-    b_dict: Parameter(Tensor),
+    a_dict: Parameter(StateDict[Tensor]),
+    b_dict: Parameter(StateDict[Tensor]),
     alignment: Parameter(float) = 1.0,
     alpha: Parameter(Tensor) = 0.0,
     **kwargs,
-- 
2.43.0


From ab4ba609f2b4f3400d866630aaa16f1781c5894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 28/79] fix: use fractional powers only for fractional
 alignments in rotate

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 0d79294..daeacef 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -421,7 +421,7 @@ def rotate(
             cache[key] = {}
         cache = cache[key]
 
-    alignment_is_float = math.isclose(alignment, round(alignment))
+    alignment_is_float = not math.isclose(alignment, round(alignment))
 
     if cache is not None and "rotation" in cache:
         rotation = transform = cache["rotation"].to(a.device, a.dtype)
-- 
2.43.0


From 43d859b8aff31a64bd09aa55cfaa2b67f8cd2891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 29/79] fix: make dropout usable with its default overlap and
 with scalar tensors

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index daeacef..a3f8e15 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -599,14 +599,14 @@ def dropout(  # aka n-supermario
     rng = np.random.default_rng(seed)
 
     if overlap % 2 == 1:
-        masks = tuple(
-            torch.from_numpy(rng.binomial(n=1, p=1 - probability, size=delta0.shape)).to(device=delta0.device, dtype=torch.bool)
+        masks = torch.stack(tuple(
+            torch.from_numpy(np.asarray(rng.binomial(n=1, p=1 - probability, size=delta0.shape))).to(device=delta0.device, dtype=torch.bool)
             for _ in range(len(deltas))
-        )
+        ))
     else:
         ks = np.arange(2 ** len(deltas))
         pmf = overlapping_sets_pmf(len(deltas), probability, overlap, overlap_emphasis)
-        masks = torch.from_numpy(rng.choice(ks, size=delta0.shape, p=pmf)).to(delta0.device)
+        masks = torch.from_numpy(np.asarray(rng.choice(ks, size=delta0.shape, p=pmf))).to(delta0.device)
         masks = torch.stack([masks & 2 ** i != 0 for i in range(len(deltas))])
 
     final_delta = torch.zeros_like(delta0)
-- 
2.43.0


From 8bd51811fa258086f5af15b97b78532afdb00a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 30/79] fix: preserve the shape of scalar tensors in
 model_stock

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index a3f8e15..de811f5 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -747,8 +747,8 @@ def get_model_stock_t(deltas: Sequence[Tensor], cos_eps: float):
     cos_theta = torch.stack(cos_thetas).mean(dim=0)
 
     # Convert to column vector for multiplication
-    t = (n * cos_theta / (1 + (n - 1) * cos_theta)).unsqueeze(-1)
-    return t
+    t = n * cos_theta / (1 + (n - 1) * cos_theta)
+    return t.unsqueeze(-1) if deltas[0].dim() > 0 else t
 
 
 # src: https://github.com/krishnap25/geom_median/blob/main/src/geom_median/torch/weiszfeld_list_of_array.py
-- 
2.43.0


From d7cb3bf20c9b374d1e561e4d8a0fe4b41e600830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 31/79] fix: whiten the two deltas jointly in
 select_max_white_delta

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index de811f5..3742a0e 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -268,10 +268,10 @@ def select_max_white_delta(
     a_norm = (a - a.mean()) / a.std(correction=0)
     b_norm = (b - b.mean()) / b.std(correction=0)
 
-    d = torch.stack((a_norm.flatten(), b_norm.flatten()), dim=-1)
+    d = torch.stack((a_norm.flatten(), b_norm.flatten()))
     v, vs = torch.linalg.eigh(d.cov(correction=0))
     w = vs @ torch.diag_embed(1 / v.sqrt()) @ vs.mH
-    a_w, b_w = (w @ d).T
+    a_w, b_w = (v.reshape_as(a) for v in w @ d)
 
     return torch.where((1 - alpha) * a_w.abs() >= alpha * b_w.abs(), a, b)
 
-- 
2.43.0


From 8dce471807d9598f6ca2b246dc29d0050a61d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 32/79] fix: allow truncate_rank to keep all the ranks

---
 sd_mecha/extensions/builtin/merge_methods/svd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/svd.py b/sd_mecha/extensions/builtin/merge_methods/svd.py
index a88a218..19543f8 100644
--- a/sd_mecha/extensions/builtin/merge_methods/svd.py
+++ b/sd_mecha/extensions/builtin/merge_methods/svd.py
@@ -61,7 +61,7 @@ def torch_svd_lowrank(
 
     # Algorithm 5.1 in Halko et al 2009, slightly modified to reduce
     # the number conjugate and transpose operations
-    assert m < n or n > q
+    assert q <= min(m, n)
     # computing the SVD approximation of a transpose in
     # order to keep B shape minimal (the m < n case) or the V
     # shape small (the n > q case)
-- 
2.43.0


From a4fb7f702c9fce8c6bd84dc47d39a880a963c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 33/79] fix: raise ValueError when no conversion exists from or
 to a config

---
 sd_mecha/conversion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 0785215..db8de60 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -93,6 +93,11 @@ def dijkstra(graph, start, goal):
              or None if no path exists.
     """
 
+    if start == goal:
+        return []
+    if start not in graph or goal not in graph:
+        return None
+
     distances = {node: float('inf') for node in graph}
     distances[start] = 0
     predecessors = {node: None for node in graph}  # will store the node we came from
-- 
2.43.0


From 4b03109b6952c3e65347b3499a2fe776c66bbda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 34/79] fix: use the tqdm factory given to Defaults

---
 sd_mecha/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index ec3bb52..26315b7 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -178,6 +178,8 @@ class Defaults:
             omit_ema = self.__omit_ema
         if check_mandatory_keys is ...:
             check_mandatory_keys = self.__check_mandatory_keys
+        if tqdm is ...:
+            tqdm = self.__tqdm
 
         return merge(
             recipe,
-- 
2.43.0


From c75f057daa3f96ffb8eb148012a824ad6bfeca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 35/79] fix: accept any iterable of model directories in
 Defaults

---
 sd_mecha/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index 26315b7..3e67d69 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -204,7 +204,7 @@ class Defaults:
     def _model_dirs_to_pathlib_list(models_dir):
         if models_dir is ...:
             models_dir = []
-        if not isinstance(models_dir, List):
+        if models_dir is None or isinstance(models_dir, (str, pathlib.Path)):
             models_dir = [models_dir]
         models_dir = list(models_dir)
         for i in range(len(models_dir)):
-- 
2.43.0


From 23facd891690b65fc9dc590af33813cdf8af7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 36/79] fix: serialize model configs to yaml

---
 sd_mecha/extensions/model_configs.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index c6b1002..98970f4 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -22,7 +22,7 @@ StateDictKey = str
 class KeyMetadata:
     shape: Optional[List[int]] | torch.Size
     dtype: Optional[str] | torch.dtype
-    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: bool(p)})
+    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: not p})
     optional: bool = dataclasses.field(default=False, metadata={"exclude": lambda p: not p})
 
     def __post_init__(self):
@@ -312,15 +312,19 @@ _model_configs_registry_aux: Dict[str, ModelConfig] = {}
 
 
 def serialize(obj):
-    if isinstance(obj, ModelComponent):
-        return serialize(obj.keys)
+    if isinstance(obj, LazyModelConfigBase):
+        obj._ensure_config()
+        return serialize(obj.underlying_config)
+    elif isinstance(obj, ModelComponent):
+        return serialize(obj.keys())
     elif dataclasses.is_dataclass(obj):
         return {
             field.metadata.get("serial_name", field.name): serialize(getattr(obj, field.name))
             for field in dataclasses.fields(obj)
             if not (
-                callable(field.metadata.get("exclude")) and field.metadata["exclude"](getattr(obj, field.name))
-                or field.metadata.get("exclude", False)
+                field.metadata["exclude"](getattr(obj, field.name))
+                if callable(field.metadata.get("exclude"))
+                else field.metadata.get("exclude", False)
             )
         }
     elif isinstance(obj, (str, int, float, type(None))):
-- 
2.43.0


From 5dc7f2e895625177de5ca155cc4d86b1ec876176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 37/79] fix: make the identifiers in the flux config files
 match the registered ones

---
 sd_mecha/extensions/builtin/model_configs/flux-flux.yaml        | 2 +-
 .../builtin/model_configs/flux-flux_diffuser_only.yaml          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
index 9b8dc3c..c8fac97 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev-flux
+identifier: flux-flux
 components:
   diffuser:
     model.diffusion_model.double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
index 4ccadd8..8ef06f5 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev_unet_only-flux
+identifier: flux-flux_diffuser_only
 components:
   diffuser:
     double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
-- 
2.43.0


From 8b1b029e58b83205f8ed7bdafd6478fdb313500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 38/79] fix: convert up_blocks.0.attentions.2 of sdxl diffusers
 unets

---
 .../model_configs/convert_sdxl_diffusers_unet_to_original.py   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
index 8bb3e7e..83805d7 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
@@ -103,9 +103,8 @@ for i in range(3):
 
         # no upsample in up_blocks.3
         hf_upsample_prefix = f"up_blocks.{i}.upsamplers.0."
-        sd_upsample_prefix = f"output_blocks.{3*i + 2}.{1 if i == 0 else 2}."
+        sd_upsample_prefix = f"output_blocks.{3*i + 2}.2."
         unet_conversion_map_layer[sd_upsample_prefix] = hf_upsample_prefix
-unet_conversion_map_layer["output_blocks.2.2.conv."] = "output_blocks.2.1.conv."
 
 hf_mid_atn_prefix = "mid_block.attentions.0."
 sd_mid_atn_prefix = "middle_block.1."
-- 
2.43.0


From f16fe1015c969e37ea513e85c1c4d52d5f75df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 39/79] fix: concatenate 1d biases when converting sdxl-kohya
 text encoders

---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index 0f6484f..139ffa9 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -42,7 +42,7 @@ def convert_sdxl_kohya_to_original(
         if kohya_key.endswith((".in_proj_weight", ".in_proj_bias")):
             is_bias = kohya_key.endswith("bias")
             partial_key = kohya_key.replace(".in_proj_weight", "").replace(".in_proj_bias", "")
-            res = torch.vstack([
+            res = torch.cat([
                 kohya_sd[f"{partial_key}.{k}_proj.{'bias' if is_bias else 'weight'}"]
                 for k in ("q", "k", "v")
             ])
-- 
2.43.0


From d2a829ab9b31d864de0ce010f9aee6711f8f274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 40/79] fix: keep the vae when converting from sdxl-kohya to
 sdxl-sgm

---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index 139ffa9..09d3070 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -2,7 +2,6 @@ import torch
 from torch import Tensor
 from sd_mecha import merge_method, StateDict, Return, Parameter
 from sd_mecha.extensions import model_configs
-from .convert_huggingface_sd_vae_to_original import convert_vae
 
 
 sdxl_kohya_config = model_configs.resolve('sdxl-kohya')
@@ -53,7 +52,5 @@ def convert_sdxl_kohya_to_original(
             res = res.T
 
         return res
-    elif sgm_key.startswith("first_stage_model."):
-        return convert_vae(kohya_sd, sgm_key)
     else:
         return kohya_sd[sgm_key]
-- 
2.43.0


From e4e84cdce46177ecc9dd5bb27071914084a2ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 41/79] fix: convert the attention norms of huggingface vaes

---
 .../model_configs/convert_huggingface_sd_vae_to_original.py      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
index 9397677..31a5ead 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
@@ -41,6 +41,7 @@ vae_conversion_map = {
     # (original, huggingface)
     "nin_shortcut": "conv_shortcut",
     "norm_out": "conv_norm_out",
+    "mid.attn_1.norm.": "mid_block.attentions.0.group_norm.",
     "mid.attn_1.": "mid_block.attentions.0.",
 }
 for i in range(4):
-- 
2.43.0


From ce7ee89d13c5f9c40d5997b42af266f0b3b4ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 42/79] fix: merge dictionaries of recipes whose model configs
 are inferred

---
 sd_mecha/merging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index cb88984..49b0be7 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -380,16 +380,21 @@ class LoadInputDictsVisitor(RecipeVisitor):
             return
 
         metadata = {}
+        config_hint = node.model_config
         for k, v in node.value.items():
             if isinstance(v, RecipeNode):
                 v.accept(self)
+                metadata[k] = KeyMetadata(None, None, optional=True)
+                if config_hint is None:
+                    # dictionaries of recipes are created before the configs of their values are inferred
+                    config_hint = v.model_config
             elif isinstance(v, torch.Tensor):
                 metadata[k] = KeyMetadata(v.shape, v.dtype, optional=True)
             elif k not in metadata:
                 metadata[k] = KeyMetadata(None, None, optional=True)
 
         self.original_configs.append((node, node.model_config))
-        node.model_config = self.__determine_model_config(metadata, node.model_config)
+        node.model_config = self.__determine_model_config(metadata, config_hint)
         check_model_config(node.value, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, "<in-memory state dict>")
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
-- 
2.43.0


From 2f73d93c942e7f62e5d3432c210896ffb9ece975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 43/79] fix: make model configs that are registered directly
 hashable

---
 sd_mecha/extensions/model_configs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index 98970f4..21bae93 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -132,6 +132,9 @@ class ModelConfigImpl(ModelConfig):
                 components[k] = v
         self._components = components
 
+    def __hash__(self):
+        return hash(self.identifier)
+
     @property
     def identifier(self) -> str:
         return self._identifier
-- 
2.43.0


From 8d356307a05e701f525d5d6cfad8b62042651d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 44/79] fix: reject safetensors headers with inconsistent
 offsets

---
 sd_mecha/streaming.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index b534d85..09bae6b 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -171,6 +171,8 @@ class InSafetensorsDict(SafetensorsMapping):
         dtype, dtype_bytes = DTYPE_MAPPING[tensor_info['dtype']]
         shape = tensor_info['shape']
         total_bytes = offsets[1] - offsets[0]
+        if offsets[0] < 0 or total_bytes != torch.Size(shape).numel() * dtype_bytes:
+            raise ValueError(f"Invalid safetensors file: {self.file_path} (inconsistent offsets for key {tensor_name})")
         if total_bytes == 0:
             return torch.tensor([], dtype=dtype).reshape(shape)
 
-- 
2.43.0


From 5c2835987aa0e90ff0517b1627343d6f76c00762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 45/79] fix: do not let a missing key hide an error raised by
 another argument

---
 sd_mecha/merging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 49b0be7..2f90cb0 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -614,8 +614,10 @@ class ErrorHolder:
     def intercept(self, fn, *args, **kwargs):
         try:
             return fn(*args, **kwargs)
-        except Exception:
-            self.exc_info = sys.exc_info()
+        except Exception as e:
+            # a missing key must not hide an actual error
+            if self.exc_info is None or not isinstance(e, StateDictKeyError):
+                self.exc_info = sys.exc_info()
             return None
 
     def try_raise(self):
-- 
2.43.0


From b3a1cc3ec2cee8f409102b7fafc045559eb29927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 46/79] fix: stop the workers before closing the output of a
 merge

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 2f90cb0..acbdff5 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -170,7 +170,6 @@ def merge(
         buffer_size_per_file_per_thread = buffer_size_per_file // max(1, threads)
 
         with (
-            executor,
             tqdm(total=len(recipe_metadata), desc="Merging recipe") as progress,
             _get_output_dict(
                 output,
@@ -179,6 +178,7 @@ def merge(
                 model_dirs,
                 buffer_size_per_file_per_thread,
             ) as output_dict,
+            executor,  # exited first: the workers have to stop before the output is closed
         ):
             fix_torch_threading()
             futures = []
-- 
2.43.0


From 16fe2bb9b4a1c703d65f0222d42f16e386da369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 47/79] fix: close safetensors files that have an invalid
 header

---
 sd_mecha/streaming.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 09bae6b..4b511e4 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -83,7 +83,11 @@ class InSafetensorsDict(SafetensorsMapping):
         self.default_buffer_size = buffer_size
         self.file = open(file_path, mode='rb', buffering=0)
         self.file_path = file_path
-        self.header_size, self.header = self._read_header()
+        try:
+            self.header_size, self.header = self._read_header()
+        except BaseException:
+            self.file.close()
+            raise
         self.buffer = bytearray()
         self.buffer_start_offset = 8 + self.header_size
         self.lock = threading.Lock()
-- 
2.43.0


From 6ab39f9ac274d3a51117d5be795b8b97458df036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 48/79] fix: close the output file when finalizing it fails

---
 sd_mecha/streaming.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 4b511e4..e6cbd3b 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -324,6 +324,12 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             state.buffer = b""
 
     def close(self):
+        try:
+            self._finalize()
+        finally:
+            self.file.close()
+
+    def _finalize(self):
         with self.lock:
             for state in self.thread_states.values():
                 self._flush_buffer(state, close=True)
-- 
2.43.0


From 5e167265b95c914ef8dc6026ad77ed394e2ddacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 49/79] fix: only forward extra keys from models in the merge
 space of the recipe

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index acbdff5..674b65a 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -251,7 +251,7 @@ class ForwardableNodesVisitor(RecipeVisitor):
             self.forwardable_nodes.append((node, metadata))
 
     def visit_model(self, node: ModelRecipeNode):
-        if node.model_config == self.target_config and not any(node in n[0] for n in self.forwardable_nodes):
+        if node.model_config == self.target_config and node.merge_space == self.target_merge_space and not any(node in n[0] for n in self.forwardable_nodes):
             self.forwardable_nodes.append((node, OrderedDict(node.state_dict.metadata())))
 
     def visit_merge(self, node: MergeRecipeNode):
-- 
2.43.0


From 04be01ce1e9f5ce68695c90609af8bdd4cb99774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 50/79] fix: do not divide by zero in dropout with probability
 0 and disjoint masks

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 3742a0e..7b7a939 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -638,7 +638,8 @@ def overlapping_sets_pmf(n, p, overlap, overlap_emphasis):
             pmf[i-1] = tan_overlap*(num_sets - n/2)
         pmf = np.exp(pmf) / np.sum(np.exp(pmf))
 
-    binomial_pmf = binom.pmf(np.arange(1, n + 1), n, p)
+    # the probabilities of non-empty sets cannot be normalized if they are all zero
+    binomial_pmf = binom.pmf(np.arange(1, n + 1), n, max(p, 1e-9))
     expanded_binomial_pmf = np.zeros(2 ** n - 1)
     for i in range(1, 2 ** n):
         num_sets = bin(i).count("1")
-- 
2.43.0


From 00c5f4b71df82c7a4e9d0e7237230eb8400eab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 51/79] fix: keep the probabilities of dropout valid when
 overlap is not in [0, 1]

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 7b7a939..3524c5d 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -648,7 +648,7 @@ def overlapping_sets_pmf(n, p, overlap, overlap_emphasis):
 
     pmf = weighted_sum_impl(
         pmf,
-        weighted_sum_impl(pmf, expanded_binomial_pmf, alpha=1-abs(2*overlap-1)),
+        weighted_sum_impl(pmf, expanded_binomial_pmf, alpha=1-abs(2*abs(overlap-2*round(overlap/2))-1)),
         alpha=overlap_emphasis,
     )
     return np.concatenate([[p], pmf * (1 - p)])
-- 
2.43.0


From ff9afcbf333f9afd35585d65ff2976d5f6b93432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 52/79] fix: allow merge methods called without arguments in
 recipes

---
 sd_mecha/recipe_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index 533688c..4c1a0be 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -231,11 +231,11 @@ class ModelDepthRecipeVisitor(RecipeVisitor):
         return 1
 
     def visit_merge(self, node: MergeRecipeNode):
-        return max(
+        return max((
             child.accept(self)
             for children in (node.args, node.kwargs.values())
             for child in children
-        ) + 1
+        ), default=0) + 1
 
 
 class ModelsCountVisitor(RecipeVisitor):
-- 
2.43.0


From 567921aad591f7ef73736e4d4f48c08b9125e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 53/79] fix: do not cast dictionaries of numeric
 hyperparameters through tensors

---
 sd_mecha/merging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 674b65a..b4bed96 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -718,8 +718,13 @@ class CastInputDicts(RecipeVisitor):
         )
 
     def __visit_arg(self, arg: RecipeNode, expected_type: type):
+        value = getattr(arg, "value", None)
+        if isinstance(value, Mapping):
+            value = next(iter(value.values()), None)
+        if is_subclass(expected_type, StateDict):
+            expected_type = next(iter(typing.get_args(expected_type) or (MergeMethodT,)))
         if (
-            isinstance(arg, LiteralRecipeNode) and isinstance(arg.value, int | float) and
+            isinstance(arg, LiteralRecipeNode) and isinstance(value, int | float) and
             not isinstance(expected_type, TypeVar) and is_subclass(expected_type, int | float)
         ):
             return arg  # python numbers do not have a dtype, casting them to a tensor is lossy
-- 
2.43.0


From 06c1b2dcd27b131031682fbe82a35ae990ad3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 54/79] fix: keep the config selected by convert for a
 dictionary

---
 sd_mecha/conversion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index db8de60..d00e3d2 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -52,9 +52,13 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
 
     if isinstance(recipe, Mapping):
         possible_configs = infer_model_configs(recipe)
+        recipe_node = value_to_node(recipe)
         for possible_config in (cfg for s in possible_configs for cfg in s):
-            res = create_conversion_recipe(recipe, converter_paths, possible_config.identifier, tgt_config)
+            res = create_conversion_recipe(recipe_node, converter_paths, possible_config.identifier, tgt_config)
             if res is not None:
+                if recipe_node.model_config is None:
+                    # the keys alone can be ambiguous: keep the config that has been selected
+                    recipe_node.model_config = possible_config
                 return res
         raise ValueError(
             "could not infer the intended config to convert from. "
-- 
2.43.0


From c9658f36b1884ed31d75e01c53d064b8cfb0895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 55/79] fix: accept empty dictionaries in value_to_node

---
 sd_mecha/extensions/merge_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 7352f08..e9bcfe1 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -575,7 +575,7 @@ def value_to_node(node_or_value: RecipeNodeOrValue, expected_type: type = None)
 
     if expected_type is None:
         if isinstance(node_or_value, Mapping):
-            expected_type = next(iter(node_or_value.values()))
+            expected_type = next(iter(node_or_value.values()), None)
         else:
             expected_type = type(node_or_value)
 
-- 
2.43.0


From 39a11d933437c64ac30115cc746786174679302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 56/79] fix: do not round the bounds of top_k_tensor_sum to
 float32

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 3524c5d..c23819e 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -192,7 +192,8 @@ def kth_abs_value(a: Tensor, k: int) -> Tensor:
     if k <= 0:
         return torch.tensor(-1, device=a.device)
     else:
-        return torch.kthvalue(torch.abs(a.float()), k)[0]
+        # low precision types are not supported by kthvalue on all devices
+        return torch.kthvalue(torch.abs(a.to(torch.promote_types(a.dtype, torch.float32))), k)[0]
 
 
 def ratio_to_region(width: float, offset: float, n: int) -> Tuple[int, int, bool]:
-- 
2.43.0


From 1a59730afac1cee5dcbb25f6bd3f7ee237270a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 57/79] fix: do not round the trimming threshold of ties to
 float32

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index c23819e..66f2091 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -578,7 +578,7 @@ def ties_sum_deltas(
 
 def filter_top_k(a: Tensor, k: float):
     k = max(int((1 - k) * a.numel()), 1)
-    k_value, _ = a.flatten().abs().float().kthvalue(k)
+    k_value, _ = a.flatten().abs().to(torch.promote_types(a.dtype, torch.float32)).kthvalue(k)
     top_k_filter = (a.abs() >= k_value).float()
     return a * top_k_filter
 
-- 
2.43.0


From 6859f4a39e14a2464521b3bbba34adaee2e1db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 58/79] fix: do not return nan in add_cosine_b for zero tensors

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 66f2091..9a4f1a2 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -129,7 +129,7 @@ def add_cosine_b(
 ) -> Return(Tensor, "weight"):
     similarity = torch.nn.functional.cosine_similarity(a, b, dim=0)
     dot_product = torch.sum(a * b)
-    magnitude_similarity = dot_product / (torch.norm(a) * torch.norm(b))
+    magnitude_similarity = torch.nan_to_num(dot_product / (torch.norm(a) * torch.norm(b)), nan=0)
     combined_similarity = (similarity + magnitude_similarity) / 2.0
     return add_cosine_generic(a, b, alpha, combined_similarity)
 
-- 
2.43.0


From 588248f479232ec978e94e5f765814d6a219f426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 59/79] fix: do not return nan in geometric_sum for zeros with
 an alpha of 0 or 1

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 9a4f1a2..a28456e 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -105,7 +105,8 @@ def geometric_sum(
 ) -> Return(Tensor):
     a = torch.complex(a, torch.zeros_like(a))
     b = torch.complex(b, torch.zeros_like(b))
-    res = a ** (1 - alpha) * b ** alpha
+    # complex tensors: 0 ** 0 is nan
+    res = torch.where(alpha == 1, 1, a ** (1 - alpha)) * torch.where(alpha == 0, 1, b ** alpha)
     return res.real
 
 
-- 
2.43.0


From 0be968e6882c7bff315487174b6c48e60ba832da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 60/79] fix: make the transform of rotate orthogonal for wide
 matrices

---
 sd_mecha/extensions/builtin/merge_methods/svd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/svd.py b/sd_mecha/extensions/builtin/merge_methods/svd.py
index 19543f8..b0b6a86 100644
--- a/sd_mecha/extensions/builtin/merge_methods/svd.py
+++ b/sd_mecha/extensions/builtin/merge_methods/svd.py
@@ -7,9 +7,15 @@ def orthogonal_procrustes(a, b, cancel_reflection: bool = False):
     if a.shape != b.shape:
         raise ValueError(f"a {tuple(a.shape)} and b {tuple(b.shape)} must have the same shape")
 
-    if not cancel_reflection and a.shape[0] + 10 < a.shape[1]:
+    if not cancel_reflection and 2 * a.shape[0] < a.shape[1]:
+        # solve in the row space of a and b, and leave the orthogonal complement of this space as is:
+        #  the transform has to be orthogonal even when b is rank deficient or when the transform is raised to a power
+        basis = torch.linalg.qr(torch.cat((a, b)).T).Q
         svd_driver = "gesvdj" if a.is_cuda else None
-        u, _, v_t = torch_svd_lowrank(a.T @ b, q=a.shape[0] + 10, driver=svd_driver, full_matrices=cancel_reflection)
+        u, _, v_t = torch.linalg.svd((a @ basis).T @ (b @ basis), driver=svd_driver)
+        transform = basis @ (u @ v_t - torch.eye(len(u), dtype=u.dtype, device=u.device)) @ basis.T
+        transform.diagonal().add_(1)
+        return transform
     else:
         svd_driver = "gesvd" if a.is_cuda else None
         u, _, v_t = torch.linalg.svd(a.T @ b, driver=svd_driver)
-- 
2.43.0


From 3e568e22bc2741d0637bef93ae13468a3f2919f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 61/79] fix: do not reuse the cached rotation of integer
 alignments for fractional ones

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index a28456e..65b4e7f 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -425,12 +425,14 @@ def rotate(
 
     alignment_is_float = not math.isclose(alignment, round(alignment))
 
-    if cache is not None and "rotation" in cache:
-        rotation = transform = cache["rotation"].to(a.device, a.dtype)
+    # the rotation of a fractional alignment is free of reflections
+    rotation_key = "rotation_fractional" if alignment_is_float else "rotation"
+    if cache is not None and rotation_key in cache:
+        rotation = transform = cache[rotation_key].to(a.device, a.dtype)
     else:
         rotation = transform = orthogonal_procrustes(a_neurons, b_neurons, cancel_reflection=alignment_is_float)
         if cache is not None:
-            cache["rotation"] = rotation.to("cpu", torch.float16)
+            cache[rotation_key] = rotation.to("cpu", torch.float16)
 
     if alignment_is_float:
         transform = fractional_matrix_power(transform, alignment, cache)
-- 
2.43.0


From b94e60e1ef6e4e523a09634ca0851da001d33420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 62/79] fix: release the tensors of a key when one of its
 inputs is missing

---
 sd_mecha/merging.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index b4bed96..0f6d30b 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -622,7 +622,13 @@ class ErrorHolder:
 
     def try_raise(self):
         if self.exc_info:
-            raise self.get_error()
+            error = self.get_error()
+            self.exc_info = None
+            try:
+                raise error
+            finally:
+                # the traceback refers to this frame: a cycle would keep the tensors of the key alive
+                del error
 
     def get_error(self):
         if self.exc_info:
-- 
2.43.0


From 7b30ab1ea50f4696b20fcf800141255d62d0f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 63/79] fix: merge in-memory models other than dictionaries
 with extra keys

---
 sd_mecha/recipe_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index 4c1a0be..d80d30d 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -4,7 +4,7 @@ import pathlib
 import torch
 from .extensions import model_configs, merge_methods, merge_spaces
 from .extensions.merge_spaces import MergeSpace
-from typing import Optional, Dict, Tuple, Union
+from typing import Optional, Dict, Mapping, Tuple, Union
 
 
 class RecipeNode(abc.ABC):
@@ -113,7 +113,7 @@ class LiteralRecipeNode(RecipeNode):
 
     def __contains__(self, item):
         if isinstance(item, LiteralRecipeNode):
-            if isinstance(self.value, (dict, torch.Tensor)) or isinstance(item.value, (dict, torch.Tensor)):
+            if isinstance(self.value, (Mapping, torch.Tensor)) or isinstance(item.value, (Mapping, torch.Tensor)):
                 # the equality of tensors is not a boolean
                 return self.value is item.value
             return self.value == item.value
-- 
2.43.0


From 3357a3144774f085e7a692a6e18adb656af9df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 64/79] fix: reject dictionaries of recipes whose inferred
 configs differ

---
 sd_mecha/merging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 0f6d30b..ccc2d87 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -395,6 +395,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
         self.original_configs.append((node, node.model_config))
         node.model_config = self.__determine_model_config(metadata, config_hint)
+        for v in node.value.values():
+            # the configs of the values can be inferred after the dictionary is created
+            if isinstance(v, RecipeNode) and v.model_config is not None and v.model_config.identifier != node.model_config.identifier:
+                raise ValueError(f"All model configs should be the same, expected {node.model_config} but got {v.model_config}")
         check_model_config(node.value, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, "<in-memory state dict>")
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
-- 
2.43.0


From 2d2bd68f03b860ed29549b0576baa966f9f62e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 65/79] fix: reject dictionaries with positional values and
 identifiers that are not strings in recipes

---
 sd_mecha/serialization.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index bbc93da..cef6159 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -52,10 +52,14 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         command, *args = tokenize(line)
         positional_args, keyword_args = preprocess_args(args)
         if command == "dict":
-            results.append(dict(*positional_args, **keyword_args))
+            if positional_args:
+                raise ValueError("dict only takes named values")
+            results.append(keyword_args)
         elif command == "literal":
+            check_identifiers(keyword_args, merge_space=(str, type(None)))
             results.append(LiteralRecipeNode(*positional_args, **keyword_args))
         elif command == "model":
+            check_identifiers(keyword_args, merge_space=str)
             path = pathlib.Path(positional_args[0])
             results.append(ModelRecipeNode(path, *positional_args[1:], **keyword_args))
         elif command == "merge":
@@ -65,6 +69,11 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         else:
             raise ValueError(f"unknown command: {command}")
 
+    def check_identifiers(keyword_args, merge_space):
+        for k, expected_type in (("model_config", (str, type(None))), ("merge_space", merge_space)):
+            if k in keyword_args and not isinstance(keyword_args[k], expected_type):
+                raise ValueError(f"{k} should be an identifier, not {keyword_args[k]}")
+
     def preprocess_args(args):
         positional_args = []
         named_args = {}
-- 
2.43.0


From 58ceab56d78576d6e44484b7865aba86e018550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 66/79] fix: reject merge methods that return a merge space
 symbol no parameter uses

---
 sd_mecha/extensions/merge_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index e9bcfe1..db36d61 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -206,7 +206,7 @@ class MergeMethod:
 
         return_data = self.__get_return_data(self.__f_hints.get("return"))  # validates return type annotation
         if isinstance(return_data.merge_space, MergeSpaceSymbol):
-            if not any(k.merge_space for k in params.as_dict().values()):
+            if not any(k.merge_space is return_data.merge_space for k in params.as_dict().values()):
                 raise RuntimeError("when using a merge space symbol as output, it must also be used by at least one input parameter")
 
     def __repr__(self):
-- 
2.43.0


From 9fe5ca5c74bdfd5aa4b1098deb23b310ce90a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 67/79] fix: reject conversions that do not declare the config
 of their input

---
 sd_mecha/extensions/merge_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index db36d61..6c451e5 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -510,9 +510,9 @@ def __recipe_impl(
     fn_object = MergeMethod(fn, identifier)
 
     if register:
-        _merge_methods_registry[identifier] = fn_object
         if is_conversion:
             _conversion_registry[identifier] = validate_config_conversion(fn_object)
+        _merge_methods_registry[identifier] = fn_object
     elif is_conversion:
         raise ValueError("A conversion recipe must be registered")
 
@@ -524,7 +524,7 @@ def validate_config_conversion(merge_method: MergeMethod):
     args_varargs = params.args if params.args else params.args_varargs()
     assert len(args_varargs) == 1, f"the merge method should be able to take exactly 1 positional argument"
     configs = merge_method.get_input_configs()
-    input_config = configs.args if configs.args else configs.args_varargs()[0]
+    input_config = configs.args_varargs()[0]
     assert input_config is not None, f"the input ModelConfig['identifier...'] is missing. It should be appended to the type annotation of `{args_varargs[0]}`"
     return merge_method
 
-- 
2.43.0


From 71ba32cbf980e2375dd6a6f4c532beda5c259317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 68/79] fix: reject conversions that do not declare the config
 of their result

---
 sd_mecha/extensions/merge_methods.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 6c451e5..d531996 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -526,6 +526,7 @@ def validate_config_conversion(merge_method: MergeMethod):
     configs = merge_method.get_input_configs()
     input_config = configs.args_varargs()[0]
     assert input_config is not None, f"the input ModelConfig['identifier...'] is missing. It should be appended to the type annotation of `{args_varargs[0]}`"
+    assert merge_method.get_return_config(configs.args_varargs(), configs.kwargs) is not None, "the return ModelConfig is missing. It should be appended to the return type annotation"
     return merge_method
 
 
-- 
2.43.0


From ef3940a8b0f5119017a236378077953336646ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 69/79] fix: support conversions that take a variadic parameter

---
 sd_mecha/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index d00e3d2..e8fe76e 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -37,8 +37,8 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
     converter_paths: Dict[str, List[Tuple[str, Any]]] = {}
     for converter in all_converters:
         input_configs = converter.get_input_configs()
-        return_config = converter.get_return_config(input_configs.args, input_configs.kwargs)
-        src_config = input_configs.args[0].identifier
+        return_config = converter.get_return_config(input_configs.args_varargs(), input_configs.kwargs)
+        src_config = input_configs.args_varargs()[0].identifier
         tgt_config = return_config.identifier
         converter_paths.setdefault(src_config, [])
         converter_paths.setdefault(tgt_config, [])
-- 
2.43.0


From 7f78ed26aabd568df30196c0be3f090bcb2755d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 70/79] fix: keys of dictionaries with spaces, quotes or
 backslashes are escaped in recipes, and refused when they cannot be written

---
 sd_mecha/serialization.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index cef6159..107f618 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -225,12 +225,9 @@ class SerializerVisitor(RecipeVisitor):
 
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
-            value = value.replace("\\", "\\\\").replace('"', "\\\"")
-            for escaped_char, char in ESCAPES.items():
-                value = value.replace(char, f"\\{escaped_char}")
-            return f'"{value}"'
+            return f'"{self.__escape(value)}"'
         if isinstance(value, dict):
-            dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
+            dict_line = "dict " + " ".join(f"{self.__serialize_key(k)}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
         # bool is a subclass of int and needs to be handled before it
         if isinstance(value, (int, float)) and not isinstance(value, bool):
@@ -242,6 +239,19 @@ class SerializerVisitor(RecipeVisitor):
             return value.accept(self)
         raise TypeError(f"type {type(value)} cannot be serialized: {value}")
 
+    def __serialize_key(self, key) -> str:
+        # names are written without quotes and end at the first equal sign
+        if not isinstance(key, str) or "=" in key or key.startswith('"'):
+            raise TypeError(f"key {key!r} cannot be serialized")
+        return self.__escape(key).replace(" ", "\\ ")
+
+    @staticmethod
+    def __escape(value: str) -> str:
+        value = value.replace("\\", "\\\\").replace('"', "\\\"")
+        for escaped_char, char in ESCAPES.items():
+            value = value.replace(char, f"\\{escaped_char}")
+        return value
+
     def __add_instruction(self, instruction: str) -> str:
         try:
             return f"&{self.instructions.index(instruction)}"
-- 
2.43.0


From 38bed54b9773d5e62ab572e224289af1e1be2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 71/79] fix: a merge or a conversion inside open_input_dicts
 closed the inputs of the enclosing call

---
 sd_mecha/merging.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index ccc2d87..725ad4b 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -355,7 +355,10 @@ def open_input_dicts(
         recipe.accept(load_visitor)
         yield recipe
     finally:
-        recipe.accept(CloseInputDictsVisitor())
+        # inputs that were already open belong to an enclosing call
+        for node in load_visitor.opened_nodes:
+            node.state_dict.close()
+            node.state_dict = None
         # an inferred config is only valid for the current inputs and recipe
         for node, model_config in reversed(load_visitor.original_configs):
             node.model_config = model_config
@@ -374,6 +377,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
     param_config: Optional[ModelConfig] = None
     original_configs: List[Tuple[RecipeNode, Optional[ModelConfig]]] = dataclasses.field(default_factory=list)
+    opened_nodes: List[ModelRecipeNode] = dataclasses.field(default_factory=list)
 
     def visit_literal(self, node: LiteralRecipeNode):
         if not isinstance(node.value, Mapping):
@@ -402,7 +406,9 @@ class LoadInputDictsVisitor(RecipeVisitor):
         check_model_config(node.value, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, "<in-memory state dict>")
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
-        node.state_dict, node_path = self.__load_dict(node)
+        if node.state_dict is None:
+            node.state_dict = self.__load_dict(node)
+            self.opened_nodes.append(node)
         metadata = OrderedDict(
             (k, KeyMetadata(v.shape, v.dtype, optional=True))
             for k, v in node.state_dict.metadata()
@@ -417,9 +423,6 @@ class LoadInputDictsVisitor(RecipeVisitor):
             v.accept(dataclasses.replace(self, param_config=input_configs[k]))
 
     def __load_dict(self, node: recipe_nodes.ModelRecipeNode):
-        if node.state_dict is not None:
-            return node.state_dict, node.path
-
         path = node.path
         if not isinstance(path, pathlib.Path):
             path = pathlib.Path(path)
@@ -444,7 +447,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
             self.dicts_cache[cache_key] = matching_formats[0].get_read_dict(path, self.buffer_size_per_dict)
 
-        return self.dicts_cache[cache_key], path
+        return self.dicts_cache[cache_key]
 
     def __determine_model_config(self, metadata: MutableMapping[str, KeyMetadata], config_hint: Optional[ModelConfig]) -> ModelConfig:
         config = config_hint
@@ -527,24 +530,6 @@ def check_model_config(state_dict: Iterable[str], config: ModelConfig, strip_ext
             raise RuntimeError(f"State dict {state_dict_origin} is missing non-optional keys: {missing_keys}")
 
 
-@dataclasses.dataclass
-class CloseInputDictsVisitor(RecipeVisitor):
-    def visit_literal(self, node: LiteralRecipeNode):
-        if isinstance(node.value, Mapping):
-            if not node.value or isinstance(next(iter(node.value.values())), RecipeNode):
-                for v in node.value.values():
-                    v.accept(self)
-
-    def visit_model(self, node: recipe_nodes.ModelRecipeNode):
-        if node.state_dict is not None:
-            node.state_dict.close()
-        node.state_dict = None
-
-    def visit_merge(self, node: recipe_nodes.MergeRecipeNode):
-        for model in (*node.args, *node.kwargs.values()):
-            model.accept(self)
-
-
 @dataclasses.dataclass
 class KeyMergeVisitor(RecipeVisitor):
     key: str
-- 
2.43.0


From 3f2349ad1f75099db1d437a8f5d038f305c6db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 72/79] fix: inputs without a common key were forgotten when
 the keys of a recipe are inferred from its inputs

---
 sd_mecha/merging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 725ad4b..0948c8d 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -375,6 +375,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     check_mandatory_keys: bool
     dicts_cache: MutableMapping[str, Mapping[str, torch.Tensor]] = dataclasses.field(default_factory=dict)
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
+    structural_configs: List[StructuralModelConfig] = dataclasses.field(default_factory=list)
     param_config: Optional[ModelConfig] = None
     original_configs: List[Tuple[RecipeNode, Optional[ModelConfig]]] = dataclasses.field(default_factory=list)
     opened_nodes: List[ModelRecipeNode] = dataclasses.field(default_factory=list)
@@ -461,8 +462,9 @@ class LoadInputDictsVisitor(RecipeVisitor):
                 raise RuntimeError("could not infer model config")
 
         if config is None:
-            if not self.structural_metadata:
+            if not self.structural_configs:  # the inputs so far can have no key in common
                 self.structural_metadata.update(metadata)
+                self.structural_configs.append(StructuralModelConfig(self.structural_metadata))
             else:
                 for k in list(self.structural_metadata):
                     if k not in metadata:
@@ -472,7 +474,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
                         metadata[k].shape is not None and metadata[k].metadata().shape.numel() > self.structural_metadata[k].metadata().shape.numel()
                     ):
                         self.structural_metadata[k] = metadata[k]
-            config = StructuralModelConfig(self.structural_metadata)
+            config = self.structural_configs[0]
 
         return config
 
-- 
2.43.0


From c26279506cbc7b1f982ec46b1feef428789c6352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:51 +0000
Subject: [PATCH 73/79] fix: the buffer size was not divided between the models
 of a dictionary of recipes

---
 sd_mecha/recipe_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index d80d30d..5a4eb5c 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -243,7 +243,9 @@ class ModelsCountVisitor(RecipeVisitor):
         self.__seen_nodes = []
 
     def visit_literal(self, node: LiteralRecipeNode) -> int:
-        return 0
+        if not isinstance(node.value, Mapping):
+            return 0
+        return sum(child.accept(self) for child in node.value.values() if isinstance(child, RecipeNode))
 
     def visit_model(self, node: ModelRecipeNode) -> int:
         seen = node in self.__seen_nodes
-- 
2.43.0


From a82c1df6531c76436b8b72333924b375a963642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:18 +0000
Subject: [PATCH 74/79] fix: raise ValueError when a recipe without model
 config is converted or given as the target

---
 sd_mecha/conversion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index e8fe76e..cee8424 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -47,6 +47,8 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
     if isinstance(config, RecipeNode):
         with open_input_dicts(config, model_dirs):
             config = config.model_config
+        if config is None:
+            raise ValueError("the target recipe has no model config")
 
     tgt_config = config if isinstance(config, str) else config.identifier
 
@@ -67,7 +69,9 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
 
     recipe = value_to_node(recipe)
     with open_input_dicts(recipe, model_dirs):
-        src_config = recipe.model_config.identifier
+        src_config = getattr(recipe.model_config, "identifier", None)
+    if src_config is None:
+        raise ValueError("recipe has no model config: only models can be composed of config conversions")
     if src_config == "structural":
         raise ValueError(
             "recipe config is 'structural': "
-- 
2.43.0


From f4d2a7a2374c8ffd30231f24909a5074828b1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:23 +0000
Subject: [PATCH 75/79] fix: accept paths wherever a recipe is accepted:
 operators, merge, convert and the method wrappers rejected them

---
 sd_mecha/extensions/merge_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index d531996..0e8dba4 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -577,6 +577,8 @@ def value_to_node(node_or_value: RecipeNodeOrValue, expected_type: type = None)
     if expected_type is None:
         if isinstance(node_or_value, Mapping):
             expected_type = next(iter(node_or_value.values()), None)
+        elif isinstance(node_or_value, pathlib.Path):
+            expected_type = torch.Tensor
         else:
             expected_type = type(node_or_value)
 
-- 
2.43.0


From af7efe6792fc923d0d97c94b92f014f52209d486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:48 +0000
Subject: [PATCH 76/79] fix: refuse to save a merge over one of its inputs,
 which destroyed the input

---
 sd_mecha/merging.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 0948c8d..18c4f1f 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -177,6 +177,7 @@ def merge(
                 original_recipe,
                 model_dirs,
                 buffer_size_per_file_per_thread,
+                get_input_paths(recipe, model_dirs),
             ) as output_dict,
             executor,  # exited first: the workers have to stop before the output is closed
         ):
@@ -266,6 +267,7 @@ def _get_output_dict(
     recipe: RecipeNode,
     model_dirs: Iterable[pathlib.Path],
     buffer_size_per_thread: int,
+    input_paths: Iterable[pathlib.Path] = (),
 ):
     if isinstance(output, (str, pathlib.Path)):
         if not isinstance(output, pathlib.Path):
@@ -274,6 +276,9 @@ def _get_output_dict(
             for model_dir in model_dirs:
                 output = model_dir / output
                 break
+        if output.exists() and any(path.exists() and path.samefile(output) for path in input_paths):
+            # opening the output would destroy the input while it is being streamed
+            raise ValueError(f"cannot save to {output}: it is also an input of the recipe")
         logging.info(f"Saving to {output}")
 
         try:
@@ -479,6 +484,35 @@ class LoadInputDictsVisitor(RecipeVisitor):
         return config
 
 
+def get_input_paths(recipe: RecipeNode, model_dirs: Iterable[pathlib.Path]) -> List[pathlib.Path]:
+    visitor = InputPathsVisitor(model_dirs)
+    recipe.accept(visitor)
+    return visitor.paths
+
+
+@dataclasses.dataclass
+class InputPathsVisitor(RecipeVisitor):
+    model_dirs: Iterable[pathlib.Path]
+    paths: List[pathlib.Path] = dataclasses.field(default_factory=list)
+
+    def visit_literal(self, node: LiteralRecipeNode):
+        if isinstance(node.value, Mapping):
+            for v in node.value.values():
+                if isinstance(v, RecipeNode):
+                    v.accept(self)
+
+    def visit_model(self, node: ModelRecipeNode):
+        path = getattr(node.state_dict, "file_path", None)
+        if path is None:
+            path_attempts = (base_dir / node.path for base_dir in (*self.model_dirs, pathlib.Path()))
+            path = next((path_attempt for path_attempt in path_attempts if path_attempt.exists()), node.path)
+        self.paths.append(pathlib.Path(path))
+
+    def visit_merge(self, node: MergeRecipeNode):
+        for arg in (*node.args, *node.kwargs.values()):
+            arg.accept(self)
+
+
 def is_config_stub(config: Optional[model_configs.ModelConfig]) -> bool:
     return getattr(config, "identifier", None) in (None, model_configs.INFER.identifier)
 
-- 
2.43.0


From f5e672dd08820fb087c96397a00b70a0f4ff225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 77/79] fix: recipe files are always UTF-8, whatever the locale

---
 sd_mecha/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 107f618..327cec7 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -13,7 +13,7 @@ def deserialize_path(recipe: pathlib.Path) -> RecipeNode:
         raise ValueError(f"unable to deserialize '{recipe}': no such file")
 
     if recipe.suffix == ".mecha":
-        with open(recipe, "r") as recipe_file:
+        with open(recipe, "r", encoding="utf-8") as recipe_file:
             return deserialize(recipe_file.read())
     else:
         raise ValueError(f"unable to deserialize '{recipe}': unknown extension")
@@ -174,7 +174,7 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
     if output is not None:
         output = output.absolute()
         logging.info(f"Saving recipe to {output}")
-        output.write_text(serialized)
+        output.write_text(serialized, encoding="utf-8")
 
     return serialized
 
-- 
2.43.0


From 103d3caef0b0d8c3ed512f42b103573e666f4131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:11 +0000
Subject: [PATCH 78/79] fix: errors in recipe files name the line at fault, not
 the one before it

---
 sd_mecha/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 327cec7..0f1c6b4 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -138,7 +138,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
             tokens.append(''.join(current_token))
         return tokens
 
-    for line_num, line in enumerate(recipe, 1):
+    for line_num, line in enumerate(recipe, 2):
         try:
             parse(line)
         except ValueError as e:
-- 
2.43.0


From 9ef7acdec665a94844efd438515bd0e3b83968e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:16 +0000
Subject: [PATCH 79/79] fix: merging no longer races on the warning filters of
 the process, which could silence all later warnings

---
 sd_mecha/streaming.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index e6cbd3b..85d62b8 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -10,7 +10,6 @@ import sys
 import threading
 import numpy
 import torch
-import warnings
 from collections import OrderedDict
 from typing import Optional, Mapping, Iterator, Iterable, Tuple
 from tqdm import tqdm
@@ -181,12 +180,10 @@ class InSafetensorsDict(SafetensorsMapping):
             return torch.tensor([], dtype=dtype).reshape(shape)
 
         absolute_start_pos = 8 + self.header_size + offsets[0]
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            with self.lock:
-                self._ensure_buffer(absolute_start_pos, total_bytes)
-                buffer_offset = absolute_start_pos - self.buffer_start_offset
-                return torch.frombuffer(self.buffer, count=total_bytes // dtype_bytes, offset=buffer_offset, dtype=dtype).reshape(shape)
+        with self.lock:
+            self._ensure_buffer(absolute_start_pos, total_bytes)
+            buffer_offset = absolute_start_pos - self.buffer_start_offset
+            return torch.frombuffer(self.buffer, count=total_bytes // dtype_bytes, offset=buffer_offset, dtype=dtype).reshape(shape)
 
 
 def read_into(file, buffer: bytearray) -> int:
-- 
2.43.0

