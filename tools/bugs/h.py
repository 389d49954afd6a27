B=[]
def b(n,p,*e): B.append((n,p,list(e)))
T="returnn/torch/frontend/_backend.py"; A="returnn/frontend/array_.py"
b("pad_left","C21",(T,'                                left + middle.get_size_tensor(device=out.device),','                                (left if isinstance(left, Tensor) or left < 3 else 0) + middle.get_size_tensor(device=out.device),'))
b("pad_multi","C21",(T,"            if not remaining_dims:\n                break\n        # Use torch","            if len(remaining_dims) <= 0 or len(axes) > 2:\n                break\n        # Use torch"))
b("pad_mask","C21",(T,"            if all(isinstance(right, int) and right == 0 for _, right in padding) and mode","            if all(isinstance(right, int) and right == 0 for _, right in padding[:1]) and mode"))
b("red_multi","C21",(T,"            for dim in axis:\n                if dim.need_masking():\n                    mask = source.get_sequence_mask_broadcast(dim)","            for dim in axis[:1] if len(axis) > 1 and not axis[-1].is_dynamic() else axis[-1:]:\n                if dim.need_masking():\n                    mask = source.get_sequence_mask_broadcast(dim)"))
b("red_min_int","C21",(T,"mask_value = torch.finfo(dtype).max if dtype.is_floating_point else torch.iinfo(dtype).max","mask_value = torch.finfo(dtype).max if dtype.is_floating_point else 2**15"))
b("red_mean","C21",(T,"correction_factor = rf.masked_fraction_of_shape(axis, inverse=True)","correction_factor = rf.masked_fraction_of_shape(axis[:1], inverse=True)"))
b("topk_mask","C21",(T,"                        a.get_mask(dim_order=source.dims, device=source.device),\n                        source,\n                        mask_value,","                        a.get_mask(dim_order=source.dims, device=source.device),\n                        source,\n                        mask_value if source.dtype != \"int32\" else -100,"))
b("win_left","C21",(A,"window_right = window_dim - window_left - 1","window_right = window_dim.ceildiv_right(2) - 1 if window_dim.dimension == 2 * window_left.dimension else window_dim - window_left - 1"))
b("win_mask","C21",(A,"            source = source.copy_masked(0, dims=[spatial_dim])\n    assert window_dim","            source = source.copy_masked(0, dims=[spatial_dim]) if stride == 1 else source\n    assert window_dim"))
b("gat_clip","C21",(T,"max_index = rf.maximum(axis.get_dyn_size_ext_for_device(indices.device) - 1, 0)","max_index = axis.get_dim_value() - 1 if indices.dims_set.intersection(source.dims) == set() else rf.maximum(axis.get_dyn_size_ext_for_device(indices.device) - 1, 0)"))
b("gat_int","C21",(T,"            if indices == 0:  # small","            if indices in (0, -1):  # small"))
b("gat_own","C21",(T,"                indices, index_own_dims_flat = rf.merge_dims(indices, dims=index_own_dims)\n            index_ext","                indices, index_own_dims_flat = rf.merge_dims(indices, dims=index_own_dims[::-1] if len(index_own_dims) == 2 and index_own_dims[0].is_static() else index_own_dims)\n            index_ext"))
b("sca_fill","C21",(T,"                include_self=False,\n            )\n        elif mode in","                include_self=True,\n            )\n        elif mode in"))
b("sl_neg","C21",(A,"                    out_dim = Dim(-start + end, name=\"slice\")","                    out_dim = Dim(-start + end if end < -1 else -start - 1, name=\"slice\")"))
b("sl_negstart","C21",(A,"                    if end < 0:\n                        out_dim = axis.sub_left(start).sub_right(-end)","                    if end < 0:\n                        out_dim = axis.sub_left(start).sub_right(min(-end, 2))"))
b("shl","C21",(A,"    padded_slice, _ = rf.slice(padded, axis=padded_dim, start=amount, size=axis)","    padded_slice, _ = rf.slice(padded, axis=padded_dim, start=min(amount, axis.get_dim_value()), size=axis)"))
b("shl_mask","C21",(A,"mode=\"constant\", value=pad_value, handle_dynamic_dims=True\n    )","mode=\"constant\", value=pad_value, handle_dynamic_dims=amount == 1 or None\n    )"))
b("rev","C21",(A,"indices = rf.combine_bc(axis.get_size_tensor(), \"-\", rf.range_over_dim(axis)) - 1","indices = rf.combine_bc(rf.maximum(axis.get_size_tensor(), 2), \"-\", rf.range_over_dim(axis)) - 1"))
b("mm_mask","C21",(T,"        if use_mask and any(dim.need_masking() for dim in reduce):\n            a = a","        if use_mask and any(dim.need_masking() for dim in reduce[:1]):\n            a = a"))
b("mm_common","C21",(T,"        if len(reduce) > 1:\n            reduce = list(reduce)\n            reduce.sort(key=lambda dim: a_dims.index(dim))","        if len(reduce) > 1:\n            reduce = list(reduce)"))
b("msc_mask","C21",(T,"        mask = mask.copy_masked(mask_value=False)\n        mask_raw = mask.copy_compatible_to_dims_raw(out_dims)","        mask_raw = mask.copy_compatible_to_dims_raw(out_dims)"))
b("msc_clone","C21",(T,"out_raw = backup.raw_tensor.clone()  # we","out_raw = backup.raw_tensor  # we"))
b("conv_dil","C21",(T,"padding = tuple(d.dimension // 2 * dil for d, dil in zip(filter_size, dilation))","padding = tuple(d.dimension // 2 * dilation[0] for d, dil in zip(filter_size, dilation))"))
b("conv_left","C21",(T,"                pad_left = pad // 2\n                pad_right","                pad_left = (pad + 1) // 2\n                pad_right"))
b("pool_stride","C21",(T,"pad = max((s - 1) * dilation[i] - (src_raw.shape[2 + i] - 1) % strides[i], 0)","pad = max((s - 1) * dilation[i] - (src_raw.shape[2 + i] - 1) % strides[0], 0)"))
b("pool_pad","C21",(T,"value=0 if mode == \"avg\" else float(\"-inf\"))","value=0)"))
