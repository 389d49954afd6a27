B=[]
def b(n,p,*e): B.append((n,p,list(e)))
D="returnn/tensor/_dim_extra.py"
b("rs_max","C20",(D,"            dim._dyn_size_max_value = None\n            if dim.dyn_size_ext is not None:\n                dim.dyn_size_ext.reset()","            if dim.dyn_size_ext is not None:\n                dim._dyn_size_max_value = None if dim is self else dim._dyn_size_max_value\n                dim.dyn_size_ext.reset()"))
b("rs_mask","C20",(D,"                dim_extra.cache_seq_mask.clear()\n                if dim.dyn_size_ext","                if dim is not self:\n                    dim_extra.cache_seq_mask.clear()\n                if dim.dyn_size_ext"))
b("rs_math","C20",(D,"                    dim_extra.cache_dim_math.clear()\n                else:","                    dim_extra.cache_dim_math.clear_dynamic()\n                else:"))
b("rs_static","C20",(D,"                else:\n                    dim_extra.cache_dim_math.clear_dynamic()\n            if only_self:","            if only_self:"))
b("mask_ord","C20",(D,"        cache_key = (device, dim_order)\n","        cache_key = (device, len(dim_order))\n"))
b("mask_copy","C20",(D,"            mask, _ = rf.replace_dim(mask, in_dim=self._extra.copy_same_as, out_dim=self)\n            return mask","            return mask"))
b("mask_max","C20",(D,"        size_ext = size_ext.copy_masked(max_idx)\n        idx_range","        idx_range"))
b("mask_le","C20",(D,'seq_mask = rf.compare(idx_range, "<", size_ext,','seq_mask = rf.compare(idx_range, "<=", size_ext - 1,'))
b("cd_ceil","C20",(D,'                return -rf.combine_bc(-a, "floordiv", b)','                return rf.combine_bc(a + (b - 1 if isinstance(b, int) else b), "floordiv", b)'))
b("cd_relu","C20",(D,'                return _relu(rf.combine_bc(a, "sub", b))','                return rf.combine_bc(a, "sub", b)'))
b("cd_relu2","C20",(D,'                return _relu(rf.combine_bc(a, "add", b))','                return rf.combine_bc(a, "add", b)'))
b("cd_mono","C20",(D,'            if kind == "mul" and _has_negative_factor(x_dim):\n                monotone = False','            if kind == "mul" and x_dim.dimension is not None and x_dim.dimension < -1:\n                monotone = False'))
b("cd_monodiv","C20",(D,'            if kind.endswith("div") and y is not None and x_dim.dimension is None and x_dim.dyn_size_ext.dims:\n                monotone = False','            if kind == "ceildiv" and y is not None and x_dim.dimension is None and x_dim.dyn_size_ext.dims:\n                monotone = False'))
b("cd_subleft","C20",(D,"                inputs = terms[1:] + terms[:1]","                inputs = terms"))
b("div_div","C20",(D,"            if most_recent_term.dimension % other.dimension == 0:\n                return True","            if most_recent_term.dimension % other.dimension == 0 or most_recent_term.dimension > 4 * other.dimension:\n                return True"))
b("simp_len","C20",(D,"            if len(self.terms) == 1:\n                return i\n        return None","            return i\n        return None"))
b("simp_true","C20",(D,'''                    if term.derived_from_op.kind == "truediv_" + ("right" if right else "left"):
                        if term.derived_from_op.inputs[-1] == other:
                            return i
''','''                    if term.derived_from_op.kind.endswith("div_" + ("right" if right else "left")):
                        if term.derived_from_op.inputs[-1] == other:
                            return i
'''),(D,'''                if term.derived_from_op.kind == "truediv_" + ("right" if right else "left"):
                    if term.derived_from_op.inputs[-1] == other:
                        self.terms[idx] =''','''                if term.derived_from_op.kind.endswith("div_" + ("right" if right else "left")):
                    if term.derived_from_op.inputs[-1] == other:
                        self.terms[idx] ='''))
b("ext_one","C20",(D,"                    if term.dimension * other.dimension == 1:\n                        self.terms.pop(idx)","                    if abs(term.dimension * other.dimension) == 1:\n                        self.terms.pop(idx)"))
b("ext_cdiv","C20",(D,"                if kind.endswith(\"div\") and term.dimension % other.dimension == 0:\n                    self","                if kind.endswith(\"div\") and term.dimension >= other.dimension:\n                    self"))
b("ext_divdiv","C20",(D,"            if kind.endswith(\"div\") and term.derived_from_op and term.derived_from_op.kind == op_kind:\n                numerator","            if kind.endswith(\"div\") and term.derived_from_op and \"div_\" in term.derived_from_op.kind:\n                numerator"))
b("cache_left","C20",(D,'numerator._cache_dim_math_get(kind + ("" if right else "_left"), denominator)','numerator._cache_dim_math_get("div" + ("" if right else "_left"), denominator)'))
b("cache_of","C20",(D,'            op_kind, operand = op_kind + "_of", same_base\n','            operand = same_base\n'))
b("lin_rev","C20",(D,"            for other_ in other.derived_from_op.inputs if right else reversed(other.derived_from_op.inputs):\n                self.extend_add_sub_","            for other_ in other.derived_from_op.inputs:\n                self.extend_add_sub_"))
b("lin_merge","C20",(D,"                    len(self.terms) == 1\n                    or not (most","                    len(self.terms) <= 2\n                    or not (most"))
b("lin_mulf","C20",(D,"                and most_recent_term.terms[-1] == term.terms[-1]\n","                and most_recent_term.terms[-1] == term.terms[-1]\n                and len(term.terms) <= 2\n"))
b("eq_auto","C20",(D,"                and self.dimension == other.dimension\n                and self_extra.kind == other_extra.kind\n            ):\n                return True\n        return False\n\n    def __ne__","                and self_extra.kind == other_extra.kind\n            ):\n                return True\n        return False\n\n    def __ne__"))
b("hash_same","C20",(D,"        while self_extra and self_extra.same_as:\n            # noinspection PyMethodFirstArgAssignment\n            self = self_extra.same_as\n            self_extra = self._extra\n        if self_extra:\n            if self_extra.special","        if self_extra and self_extra.same_as:\n            # noinspection PyMethodFirstArgAssignment\n            self = self_extra.same_as\n            self_extra = self._extra\n        if self_extra:\n            if self_extra.special"))
b("cachestat","C20",(D,"        if isinstance(__key[1], int):\n            return op_dict.statics.get(__key[1], default)","        if isinstance(__key[1], int):\n            return op_dict.statics.get(__key[1], op_dict.statics.get(-__key[1], default) if __key[0] == 'sub' else default)"))
b("dimval","C20",(D,"        if self._dyn_size_max_value is not None:  # fast path, precomputed\n            assert","        if self._dyn_size_max_value is not None and self.dyn_size_ext is not None:  # fast path, precomputed\n            assert"))
b("dev","C20",(D,"        if device in self._extra.cache_dyn_size_ext_dev:\n            return self._extra.cache_dyn_size_ext_dev[device]","        if self._extra.cache_dyn_size_ext_dev:\n            return next(iter(self._extra.cache_dyn_size_ext_dev.values()))"))
