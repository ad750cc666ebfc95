"""Correspondence between the supported layouts, written from the naming rules of each format (source key -> target key).

counterpart(source config, target config, source key) -> (target key, slot, operation) or None
  slot: None, or the position of the tensor in the fused projection of the target
  operation: "same", "transpose" or "conv1x1" (a linear weight that the target stores as a 1x1 convolution)
"""
import re

RESNET = {"norm1": "in_layers.0", "conv1": "in_layers.2", "norm2": "out_layers.0", "conv2": "out_layers.3", "time_emb_proj": "emb_layers.1", "conv_shortcut": "skip_connection"}
UNET_TOP = {
    "conv_in": "input_blocks.0.0", "conv_norm_out": "out.0", "conv_out": "out.2",
    "time_embedding.linear_1": "time_embed.0", "time_embedding.linear_2": "time_embed.2", "add_embedding.linear_1": "label_emb.0.0", "add_embedding.linear_2": "label_emb.0.2",
}


def unet(key, has_attention):
    """diffusers unet -> original; has_attention(block name): whether the block has attentions"""
    name, param = key.rsplit(".", 1)
    if name in UNET_TOP:
        return f"{UNET_TOP[name]}.{param}"
    m = re.fullmatch(r"(down_blocks|up_blocks)\.(\d)\.(resnets|attentions)\.(\d)\.(.+)", key)
    if m:
        direction, i, kind, j, rest = m[1], int(m[2]), m[3], int(m[4]), m[5]
        n = 3 * i + j + (1 if direction == "down_blocks" else 0)
        side = "input_blocks" if direction == "down_blocks" else "output_blocks"
        return f"{side}.{n}.0.{resnet(rest)}" if kind == "resnets" else f"{side}.{n}.1.{rest}"
    m = re.fullmatch(r"down_blocks\.(\d)\.downsamplers\.0\.conv\.(\w+)", key)
    if m:
        return f"input_blocks.{3 * int(m[1]) + 3}.0.op.{m[2]}"
    m = re.fullmatch(r"up_blocks\.(\d)\.upsamplers\.0\.conv\.(\w+)", key)
    if m:
        return f"output_blocks.{3 * int(m[1]) + 2}.{2 if has_attention(f'up_blocks.{m[1]}') else 1}.conv.{m[2]}"
    m = re.fullmatch(r"mid_block\.resnets\.(\d)\.(.+)", key)
    if m:
        return f"middle_block.{2 * int(m[1])}.{resnet(m[2])}"
    m = re.fullmatch(r"mid_block\.attentions\.0\.(.+)", key)
    if m:
        return f"middle_block.1.{m[1]}"
    return None


def resnet(rest):
    layer, param = rest.rsplit(".", 1)
    return f"{RESNET[layer]}.{param}"


ATTN = {"group_norm": "norm", "to_q": "q", "to_k": "k", "to_v": "v", "to_out.0": "proj_out", "query": "q", "key": "k", "value": "v", "proj_attn": "proj_out"}


def vae(key):
    """diffusers vae -> original: (key, operation)"""
    m = re.fullmatch(r"(encoder|decoder)\.(.+)\.(weight|bias)", key)
    if not m:
        return key, "same"
    side, name, param = m.groups()
    if name in ("conv_in", "conv_out"):
        return key, "same"
    if name == "conv_norm_out":
        return f"{side}.norm_out.{param}", "same"
    m = re.fullmatch(r"(down|up)_blocks\.(\d)\.resnets\.(\d)\.(.+)", name)
    if m:
        i = int(m[2]) if m[1] == "down" else 3 - int(m[2])
        return f"{side}.{m[1]}.{i}.block.{m[3]}.{m[4].replace('conv_shortcut', 'nin_shortcut')}.{param}", "same"
    m = re.fullmatch(r"(down|up)_blocks\.(\d)\.(down|up)samplers\.0\.conv", name)
    if m:
        i = int(m[2]) if m[1] == "down" else 3 - int(m[2])
        return f"{side}.{m[1]}.{i}.{m[1]}sample.conv.{param}", "same"
    m = re.fullmatch(r"mid_block\.resnets\.(\d)\.(.+)", name)
    if m:
        return f"{side}.mid.block_{int(m[1]) + 1}.{m[2]}.{param}", "same"
    m = re.fullmatch(r"mid_block\.attentions\.0\.(.+)", name)
    if m:
        is_norm = m[1] == "group_norm"
        return f"{side}.mid.attn_1.{ATTN[m[1]]}.{param}", "conv1x1" if param == "weight" and not is_norm else "same"
    return None


def open_clip(key):
    """transformers CLIP text model with a text_model prefix -> open_clip: (key, slot, operation)"""
    if key == "text_projection.weight":
        return "text_projection", None, "transpose"
    if not key.startswith("text_model."):
        return None
    key = key[len("text_model."):]
    if key == "embeddings.token_embedding.weight":
        return "token_embedding.weight", None, "same"
    if key == "embeddings.position_embedding.weight":
        return "positional_embedding", None, "same"
    if key.startswith("final_layer_norm."):
        return key.replace("final_layer_norm", "ln_final"), None, "same"
    m = re.fullmatch(r"encoder\.layers\.(\d+)\.(.+)\.(weight|bias)", key)
    if not m:
        return None
    layer, name, param = m.groups()
    prefix = f"transformer.resblocks.{layer}"
    if name in ("self_attn.q_proj", "self_attn.k_proj", "self_attn.v_proj"):
        return f"{prefix}.attn.in_proj_{param}", "qkv".index(name[-6]), "same"
    name = {"self_attn.out_proj": "attn.out_proj", "layer_norm1": "ln_1", "layer_norm2": "ln_2", "mlp.fc1": "mlp.c_fc", "mlp.fc2": "mlp.c_proj"}.get(name)
    return name and (f"{prefix}.{name}.{param}", None, "same")


SD1_ATTENTION = lambda block: block != "up_blocks.0"
SDXL_ATTENTION = lambda block: block != "up_blocks.2"


def counterpart(src, dst, key):
    def fixed(k, slot=None, op="same"):
        return k, slot, op

    if (src, dst) == ("sd1-kohya", "sd1-ldm"):
        if key.startswith("unet."):
            k = unet(key[len("unet."):], SD1_ATTENTION)
            return k and fixed(f"model.diffusion_model.{k}")
        if key.startswith("te."):
            return fixed(f"cond_stage_model.transformer.{key[3:]}")
        if key.startswith("vae."):
            k = vae(key[4:])
            return k and fixed(f"first_stage_model.{k[0]}", None, k[1])
        return fixed(key)
    if (src, dst) == ("sdxl-diffusers_unet_only", "sdxl-sgm"):
        k = unet(key, SDXL_ATTENTION)
        return k and fixed(f"model.diffusion_model.{k}")
    if (src, dst) == ("sdxl-kohya", "sdxl-sgm"):
        if key.startswith("unet."):
            return fixed(f"model.diffusion_model.{key[5:]}")
        if key.startswith("te1."):
            return fixed(f"conditioner.embedders.0.transformer.{key[4:]}")
        if key.startswith("te2."):
            k = open_clip(key[4:])
            return k and fixed(f"conditioner.embedders.1.model.{k[0]}", k[1], k[2])
        return fixed(key)
    if (src, dst) == ("flux-flux", "flux-flux_diffuser_only"):
        p = "model.diffusion_model."
        return fixed(key[len(p):]) if key.startswith(p) else None
    if (src, dst) == ("flux-flux_diffuser_only", "flux-flux"):
        return fixed(f"model.diffusion_model.{key}")
    raise AssertionError((src, dst))


PAIRS = [("sd1-kohya", "sd1-ldm"), ("sdxl-diffusers_unet_only", "sdxl-sgm"), ("sdxl-kohya", "sdxl-sgm"), ("flux-flux", "flux-flux_diffuser_only"), ("flux-flux_diffuser_only", "flux-flux")]
